// -*- mode: Bluespec; -*-
/// The constant-product pools: the plain pair (`SALE_TAX = false`) and the sale-tax pair (`SALE_TAX = true`), with the
/// parts of the factory (fees, ownership) and of the incentives contract (auto-staking) they rely on.
///
/// One action per message. A message is a total function of the state: it gives the next state, or the reason why the
/// message is refused, in which case nothing changes. Amounts are integers, decimals are 1e-18 atomics, and -1 stands
/// for an optional argument that is left out.
module xyk {
  import math.* from "./math"
  import upgrades.* from "./upgrades"
  import curve.* from "./curve"
  import pools.SHAPES from "./pools"
  import denoms.* from "./denoms"
  import pools.wrongAssets from "./pools"
  import lpbook as book from "./lpbook"

  const SALE_TAX: bool

  /// Taxes asked for: a rate for each asset (-1: none) and whom to pay it to; stray: also one for another pool's coin
  type Tax = { rates: List[int], to: List[str], stray: bool }
  type Msg =
      Provide({ who: str, a0: int, a1: int, slip: int, minLp: int, to: str, stake: bool, funds: str })
    | Withdraw({ who: str, lp: int, min0: int, min1: int, minKind: str, funds: str })
    | Swap({ who: str, i: int, amount: int, belief: int, spread: int, to: str, funds: str })
    | Donate({ who: str, i: int, amount: int })
    | Hand({ who: str, dest: str, lp: int })                 // LP tokens change hands
    | FeeShare({ who: str, bps: int, to: str })              // bps = -1: disable
    | SetTax({ who: str, change: bool, tax: Tax, admin: str })      // admin = "": keep
    | SetFees({ who: str, total: int, maker: int })          // on the factory
    | Wait({ seconds: int, blocks: int })
    | Upgrade({ was: Release, tax: Tax, admin: str })
    | Open({ who: str, shape: str, coin: Denom, bare: bool, track: bool, tax: Tax, admin: str })     // another pool
    | Register({ who: str, on: bool })       // the owner takes the pool off the factory's list; anyone may open another of the same coins then
    | Created

  type State = {
    listed: str,                   // what the factory names for these coins: "own" (this pool), "none", "other"
    kinds: List[str],              // "native" | "cw20"
    track: bool,                   // balances tracked over blocks
    generator: bool,               // an incentives contract is registered
    maker: bool,                   // a fee address is set
    bal: List[str -> int],         // per asset, per account ("pair" included)
    lp: str -> int,                // LP tokens per account ("pair" holds the locked minimum)
    staked: str -> int,            // LP staked in the incentives contract per beneficiary
    supply: int,                   // LP supply
    totalFee: int, makerFee: int,  // bps
    share: { bps: int, to: str },  // fee share (bps 0: none)
    tax: List[{ rate: int, to: str }],
    taxAdmin: str,
    cum: List[int], last: int,     // price accumulators and the time of their last update
    now: int, height: int,
    hist: List[List[{ h: int, v: int }]],  // per asset: value saved at height h, ascending
    lpBook: book::Book             // LP tokens over blocks, if balances are tracked
  }

  /// What an outsider asks the pool after each step, and what it must answer (-1: it refuses).
  type Probe = {
    amount: List[int],
    sim: List[{ ret: int, spread: int, fee: int }],
    rev: List[{ offer: int, spread: int, fee: int }],
    share: List[int],
    provide: { a0: int, a1: int, slip: int, lp: int },
    cumAt: List[int],
    at: { h: int, v: List[int] },
    lpAt: { who: str, h: int, v: int, supply: int }
  }

  var st: State
  var msg: Msg
  var res: str
  var probe: Probe

  pure val NAMES = ["alice", "bob", "carol"]
  pure val USERS = Set("alice", "bob", "carol")
  // whose LP tokens are asked about
  pure val HOLDERS = ["alice", "alice", "bob", "bob", "carol", "carol", "pair", "inc", "maker"]
  // who may be named to receive: also the pool itself
  pure val PAYEES = ["alice", "bob", "carol", "alice", "bob", "carol", "alice", "bob", "carol", "maker", "pair"]
  pure val ACCOUNTS = Set("alice", "bob", "carol", "pair", "maker", "sharee", "taxman")
  pure val MINIMUM_LIQUIDITY = 1000
  pure val DEFAULT_SLIPPAGE = 5 * 10^15     // 0.5%
  pure val MAX_SLIPPAGE = 5 * 10^17         // 50%
  pure val MAX_FEE_SHARE_BPS = 1000
  pure val MAX_TAX = 5 * 10^17
  pure val TWAP_UNIT = 10^6

  pure def pool(s: State, i: int): int = s.bal[i].get("pair")
  pure def pay(s: State, i: int, payer: str, payee: str, n: int): State = {
    val b1 = s.bal[i].set(payer, s.bal[i].get(payer) - n)
    { ...s, bal: s.bal.replaceAt(i, b1.set(payee, b1.get(payee) + n)) }
  }
  // ---- pricing (see also curve.qnt) ---------------------------------------------------------------------------

  /// The smallest limit under which a trade goes through: how far its return falls short of what was expected.
  pure def shortfall(belief: int, q: Quote): int = {
    val gross = q.ret + q.fee
    if (belief != NONE) {
      val expected = if (belief == 0) U128 else mulDec(q.offer, decDiv(E18, belief))
      if (expected >= U128) NONE else if (gross < expected) ratio(expected - gross, expected) else 0
    }
    else if (gross + q.spread == 0) NONE else ratio(q.spread, gross + q.spread)
  }
  /// "" or why a trade is refused
  pure def spreadGuard(belief: int, maxSpread: int, q: Quote): str = {
    val limit = if (maxSpread == NONE) DEFAULT_SLIPPAGE else maxSpread
    val short = shortfall(belief, q)
    if (limit > MAX_SLIPPAGE) "spread_limit_too_high"
    else if (belief == 0) "zero_belief_price"
    else if (short == NONE) (if (belief != NONE) "overflow" else "nothing_to_compare")
    else if (short > limit) "max_spread" else ""
  }

  pure def slippageGuard(slip: int, d0: int, d1: int, p0: int, p1: int): str = {
    val s = if (slip == NONE) DEFAULT_SLIPPAGE else slip
    if (s > MAX_SLIPPAGE) "slippage_limit_too_high"
    else if (decMul(ratio(d0, d1), E18 - s) > ratio(p0, p1) or decMul(ratio(d1, d0), E18 - s) > ratio(p1, p0))
      "max_slippage"
    else ""
  }

  /// LP tokens for a deposit: { lp: -1, why } when refused
  pure def sharesFor(d0: int, d1: int, p0: int, p1: int, supply: int, slip: int): { lp: int, why: str } = {
    if (d0 == 0 or d1 == 0) { lp: -1, why: "zero_deposit" }
    else if (supply == 0) {
      val s = isqrt(d0 * d1) - MINIMUM_LIQUIDITY
      if (s <= 0) { lp: -1, why: "below_minimum_liquidity" } else { lp: s, why: "" }
    } else if (p0 == 0 or p1 == 0) { lp: -1, why: "empty_pool" }
    else {
      val g = slippageGuard(slip, d0, d1, p0, p1)
      if (g != "") { lp: -1, why: g }
      else if (max2(d0 * supply / p0, d1 * supply / p1) >= U128) { lp: -1, why: "overflow" }
      else { lp: min2(d0 * supply / p0, d1 * supply / p1), why: "" }
    }
  }

  pure def refundOf(poolAmount: int, lp: int, supply: int): int =
    if (supply == 0) 0 else mulDec(poolAmount, ratio(lp, supply))

  // ---- price accumulators and history -------------------------------------------------------------------------

  /// Accumulators at `now`, given the pools as they were since the last update.
  pure def cumNow(s: State, p0: int, p1: int): List[int] = {
    val dt = s.now - s.last
    if (dt <= 0 or p0 == 0 or p1 == 0) s.cum
    else [(s.cum[0] + dt * TWAP_UNIT * p1 / p0) % U128, (s.cum[1] + dt * TWAP_UNIT * p0 / p1) % U128]
  }
  pure def accumulate(s: State, p0: int, p1: int): State =
    { ...s, cum: cumNow(s, p0, p1), last: max2(s.last, s.now) }

  pure def remember(l: List[{ h: int, v: int }], h: int, v: int): List[{ h: int, v: int }] =
    if (l.length() > 0 and l[l.length() - 1].h == h) l.replaceAt(l.length() - 1, { h: h, v: v })
    else l.append({ h: h, v: v })
  /// The value just before block h: the last one saved in an earlier block, -1 if there is none.
  pure def before(l: List[{ h: int, v: int }], h: int): int =
    l.foldl(NONE, (acc, e) => if (e.h < h) e.v else acc)
  /// Saves the pools' balances as they are in `s`, less gifts: what a trade pays to the pool itself is one, and
  /// like any donation it is in the books from the next operation on.
  pure def snapshot(s: State, gift: List[int]): State =
    if (not(s.track)) s
    else { ...s, hist: [0, 1].foldl([], (acc, i) => acc.append(remember(s.hist[i], s.height, pool(s, i) - gift[i]))) }

  // ---- messages -----------------------------------------------------------------------------------------------

  type Next = { s: State, why: str }
  pure def refuse(s: State, why: str): Next = { s: s, why: why }
  pure def accept(s: State): Next = { s: s, why: "ok" }

  pure def mint(s: State, payee: str, n: int): State =
    { ...s, lp: s.lp.set(payee, s.lp.get(payee) + n), supply: s.supply + n }
  /// ("inc" is the incentives contract)
  pure def lpOf(s: State, who: str): int = if (who == "inc") s.staked.keys().fold(0, (n, u) => n + s.staked.get(u)) else s.lp.get(who)
  pure def noted(s: State, who: List[str], supply: int): State =
    if (not(s.track)) s
    else { ...s, lpBook: book::enter(s.lpBook, s.height, who.foldl([], (l, u) => l.append({ who: u, n: lpOf(s, u) })), supply) }

  pure def provide(s: State, m: { who: str, a0: int, a1: int, slip: int, minLp: int, to: str, stake: bool, funds: str }): Next = {
    val p0 = pool(s, 0)
    val p1 = pool(s, 1)
    val sh = sharesFor(m.a0, m.a1, p0, p1, s.supply, m.slip)
    val min = if (m.minLp == NONE) 0 else m.minLp
    if (m.funds == "mismatch" and s.kinds.select(k => k == "native").length() > 0) refuse(s, "funds_mismatch")
    else if (m.funds == "foreign") refuse(s, "foreign_coin")
    else if (m.funds == "malformed") refuse(s, "malformed_assets")
    else if (s.bal[0].get(m.who) < m.a0 or s.bal[1].get(m.who) < m.a1) refuse(s, "insufficient_balance")
    else if (sh.lp < 0) refuse(s, sh.why)
    else if (sh.lp < min) refuse(s, "min_lp")
    else if (m.stake and (not(s.generator) or s.listed != "own")) refuse(s, "no_incentives_contract")
    else if (sh.lp == 0) refuse(s, "zero_mint")
    else {
      val paid = pay(pay(s, 0, m.who, "pair", m.a0), 1, m.who, "pair", m.a1)
      val locked = if (s.supply == 0) mint(paid, "pair", MINIMUM_LIQUIDITY) else paid
      val minted =
        if (m.stake)
          { ...locked, staked: locked.staked.set(m.to, locked.staked.get(m.to) + sh.lp), supply: locked.supply + sh.lp }
        else mint(locked, m.to, sh.lp)
      val first = if (s.supply == 0) ["pair"] else []
      val entered = noted(minted, first.concat(if (m.stake) ["pair", "inc"] else [m.to]), minted.supply)
      accept(accumulate(snapshot(entered, [0, 0]), p0, p1))
    }
  }

  pure def withdraw(s: State, m: { who: str, lp: int, min0: int, min1: int, minKind: str, funds: str }): Next = {
    val p0 = pool(s, 0)
    val p1 = pool(s, 1)
    val r0 = refundOf(p0, m.lp, s.supply)
    val r1 = refundOf(p1, m.lp, s.supply)
    if (m.funds == "foreign" and s.bal[0].get(m.who) == 0) refuse(s, "insufficient_balance")
    else if (m.funds == "foreign") refuse(s, "not_lp_token")
    else if (m.funds == "extra") refuse(s, "more_than_one_coin")
    else if (m.funds == "imbalanced") refuse(s, "imbalanced_withdrawal")
    else if (m.lp == 0) refuse(s, "no_funds")
    else if (s.lp.get(m.who) < m.lp) refuse(s, "insufficient_balance")
    else if (m.minKind == "one") refuse(s, "min_assets_length")
    else if (m.minKind == "foreign") refuse(s, "min_assets_foreign")
    else if (m.minKind != "none" and (r0 < m.min0 or r1 < m.min1)) refuse(s, "min_assets")
    else if (s.kinds.indices().exists(i => s.kinds[i] == "native" and [r0, r1][i] == 0)) refuse(s, "zero_payout")
    else {
      val burnt = { ...s, lp: s.lp.set(m.who, s.lp.get(m.who) - m.lp), supply: s.supply - m.lp }
      val out = pay(pay(noted(burnt, [m.who, "pair"], s.supply), 0, "pair", m.who, r0), 1, "pair", m.who, r1)
      accept(accumulate(snapshot(out, [0, 0]), p0, p1))
    }
  }

  pure def swap(s: State, m: { who: str, i: int, amount: int, belief: int, spread: int, to: str, funds: str }): Next = {
    val j = 1 - m.i
    val q = quote(pool(s, m.i), pool(s, j), m.amount, s.tax[m.i].rate, bps(s.totalFee))
    if (m.funds == "foreign") refuse(s, "not_a_pool_asset")
    else if (m.funds == "extra") refuse(s, "more_than_one_coin")
    else if (m.funds == "mismatch") refuse(s, "funds_mismatch")
    else if (s.bal[m.i].get(m.who) < m.amount) refuse(s, "insufficient_balance")
    else if (m.amount == 0) refuse(s, "zero_offer")
    else if (not(q.ok)) refuse(s, "empty_pool_or_zero_offer")
    else {
      val g = spreadGuard(m.belief, m.spread, q)
      if (g != "") refuse(s, g)
      else {
        val cut = mulDec(q.fee, bps(s.share.bps))
        val maker = if (s.maker) mulDec(q.fee - cut, bps(s.makerFee)) else 0
        val s1 = pay(s, m.i, m.who, "pair", m.amount)
        val s2 = pay(s1, m.i, "pair", s.tax[m.i].to, q.tax)
        val s3 = pay(s2, j, "pair", m.to, q.ret)
        val s4 = pay(s3, j, "pair", s.share.to, cut)
        val s5 = pay(s4, j, "pair", "maker", maker)
        val gift = if (m.to == "pair") q.ret else 0
        accept(accumulate(snapshot(s5, if (j == 0) [gift, 0] else [0, gift]), pool(s, 0), pool(s, 1)))
      }
    }
  }

  pure def taxes(t: Tax): List[{ rate: int, to: str }] =
    [0, 1].foldl([], (l, i) => l.append(if (t.rates[i] == NONE) { rate: 0, to: "taxman" } else { rate: t.rates[i], to: t.to[i] }))
  /// "" or why these taxes cannot be
  pure def wrongTax(kinds: List[str], t: Tax): str =
    if (t.stray) "tax_on_another_asset"
    else if ([0, 1].indices().exists(i => t.rates[i] != NONE and kinds[i] != "native")) "tax_on_non_native"
    else if ([0, 1].indices().exists(i => t.rates[i] > MAX_TAX)) "tax_too_high"
    else if ([0, 1].indices().exists(i => t.rates[i] != NONE and t.to[i] == "x")) "no_such_account" else ""

  /// the release a pool with a sale tax is made from: a plain one
  pure val CONTRACT = "astroport-pair"
  pure val RELEASES = ["1.3.0", "1.3.1", "1.3.3", "1.4.0", "1.5.0", "1.5.1"]
  pure def exec(s: State, m: Msg): Next = match m {
    | Provide(p) => provide(s, p)
    | Withdraw(w) => withdraw(s, w)
    | Swap(w) => swap(s, w)
    | Donate(d) => if (s.bal[d.i].get(d.who) < d.amount or (d.amount == 0 and s.kinds[d.i] == "native")) refuse(s, "insufficient_balance")
                   else accept(pay(s, d.i, d.who, "pair", d.amount))
    | Hand(x) => if (x.lp == 0 or s.lp.get(x.who) < x.lp) refuse(s, "insufficient_balance")
                 else {
                   val given = s.lp.set(x.who, s.lp.get(x.who) - x.lp)
                   accept(noted({ ...s, lp: given.set(x.dest, given.get(x.dest) + x.lp) }, if (x.who == x.dest) [] else [x.who, x.dest], s.supply))
                 }
    | FeeShare(f) =>
        if (SALE_TAX) refuse(s, "unsupported")
        else if (f.who != "owner") refuse(s, "unauthorized")
        else if (f.bps == NONE) accept({ ...s, share: { bps: 0, to: "sharee" } })
        else if (f.bps == 0 or f.bps > MAX_FEE_SHARE_BPS) refuse(s, "fee_share_bounds")
        else accept({ ...s, share: { bps: f.bps, to: f.to } })
    | SetTax(t) =>
        if (not(SALE_TAX)) refuse(s, "unsupported")
        else if (t.who != s.taxAdmin and (t.who != "owner" or t.change or t.admin != "")) refuse(s, "unauthorized")
        else if (t.change and wrongTax(s.kinds, t.tax) != "") refuse(s, wrongTax(s.kinds, t.tax))
        else if (t.admin == "x") refuse(s, "no_such_account")
        else accept({ ...s, tax: if (t.change) taxes(t.tax) else s.tax, taxAdmin: if (t.admin == "") s.taxAdmin else t.admin })
    | SetFees(f) =>
        if (f.who != "owner") refuse(s, "unauthorized")
        else if (f.total > 10000 or f.maker > 10000) refuse(s, "fee_bounds")
        else accept({ ...s, totalFee: f.total, makerFee: f.maker })
    | Upgrade(u) =>
        if (not(SALE_TAX)) refuse(s, "unsupported")
        else if (not(knows(u.was, CONTRACT, RELEASES))) refuse(s, "release")
        else if (wrongTax(s.kinds, u.tax) != "") refuse(s, wrongTax(s.kinds, u.tax))
        else if (u.admin == "x") refuse(s, "no_such_account")
        else accept({ ...s, tax: taxes(u.tax), taxAdmin: u.admin })
    | Register(r) =>
        if (r.on) (if (s.listed == "none") accept({ ...s, listed: "other" }) else refuse(s, "already_listed"))
        else if (r.who != "owner") refuse(s, "unauthorized")
        else if (s.listed == "none") refuse(s, "not_listed")
        else accept({ ...s, listed: "none" })
    | Open(o) =>
        if (wrongAssets(o.shape, false) != "") refuse(s, wrongAssets(o.shape, false))
        else if (o.shape == "stranger" and not(wellFormed(o.coin))) refuse(s, "no_such_coin")
        else if (not(SALE_TAX)) accept(s)
        else if (o.bare) refuse(s, "no_parameters")
        else if (o.shape == "stranger" and o.tax.rates[1] != NONE) refuse(s, "tax_on_another_asset")
        else if (wrongTax(s.kinds, o.tax) != "") refuse(s, wrongTax(s.kinds, o.tax))
        else if (o.admin == "x") refuse(s, "no_such_account")
        else accept(s)
    | Wait(w) => accept({ ...s, now: s.now + w.seconds, height: s.height + w.blocks })
    | Created => accept(s)
  }

  pure def look(s: State, n: int, slip: int, skew: int, h: int, lpWho: str): Probe = {
    val p0 = pool(s, 0)
    val p1 = pool(s, 1)
    val a1 = if (p0 == 0) n else n * p1 * (1000 + skew) / (p0 * 1000)
    val fee = bps(s.totalFee)
    val q0 = quote(p0, p1, n, s.tax[0].rate, fee)
    val q1 = quote(p1, p0, n, s.tax[1].rate, fee)
    { amount: [n, n],
      sim: [{ ret: q0.ret, spread: q0.spread, fee: q0.fee }, { ret: q1.ret, spread: q1.spread, fee: q1.fee }],
      rev: [reverseQuote(p0, p1, n, s.tax[0].rate, fee), reverseQuote(p1, p0, n, s.tax[1].rate, fee)],
      share: [refundOf(p0, n, s.supply), refundOf(p1, n, s.supply)],
      provide: { a0: n, a1: a1, slip: slip, lp: if (a1 >= U128) NONE else sharesFor(n, a1, p0, p1, s.supply, slip).lp },
      cumAt: cumNow(s, p0, p1),
      at: { h: h, v: if (s.track) [before(s.hist[0], h), before(s.hist[1], h)] else [NONE, NONE] },
      lpAt: { who: lpWho, h: h, v: if (s.track) book::held(s.lpBook, lpWho, h, s.height) else NONE,
              supply: if (s.track) book::total(s.lpBook, h, s.height) else NONE } }
  }

  // ---- behaviours ---------------------------------------------------------------------------------------------

  /// where accumulators start: they wrap around at the end of their range
  pure val ENDS = [0, 0, 0, 0, U128 - 1, U128 - 10^10, U128 - 10^16]
  pure val T0 = 1600000000
  pure val H0 = 1000

  action perform(m: Msg): bool = {
    nondet e = 0.to(22).oneOf()
    nondet n = 1.to(9999).oneOf()
    nondet skew = (-12).to(12).oneOf()
    nondet sl = Set(NONE, 0, 10^15, 10^16, 5 * 10^17, 5 * 10^17 + 1).oneOf()
    nondet back = 0.to(12).oneOf()
    nondet lpWho_ = RND.oneOf()
    val r = exec(st, m)
    val p = look(r.s, n * 10^e / 1000 + 1, sl, skew, r.s.height + 1 - back, pick(HOLDERS, lpWho_))
    all { st' = r.s, msg' = m, res' = r.why, probe' = p }
  }

  action init = {
    nondet cum0_ = RND.oneOf()
    nondet cum1_ = RND.oneOf()
    nondet k0 = Set("native", "cw20").oneOf()
    nondet k1 = Set("native", "cw20").oneOf()
    nondet track = Set(true, false).oneOf()
    nondet gen = Set(true, false).oneOf()
    nondet mk_ = RND.oneOf()
    val mk = pick([true, true, false], mk_)
    nondet total_ = RND.oneOf()
    val total = pick([0, 1, 30, 30, 100, 10000], total_)
    nondet mfee = Set(0, 1, 3333, 5000, 10000).oneOf()
    nondet rich = 3.to(20).oneOf()
    nondet poor = 3.to(20).oneOf()
    nondet tax0_ = RND.oneOf()
    nondet tax1_ = RND.oneOf()
    val wealth = [USERS.union(ACCOUNTS).mapBy(a => if (USERS.contains(a)) 100 * 10^rich else 0),
                  USERS.union(ACCOUNTS).mapBy(a => if (USERS.contains(a)) 100 * 10^poor else 0)]
    val kinds = [k0, k1]
    val FIRST = [NONE, 0, 1, 5 * 10^16, 5 * 10^17]
    val tax = { rates: [if (k0 == "native") pick(FIRST, tax0_) else NONE, if (k1 == "native") pick(FIRST, tax1_) else NONE],
                to: [pick(["taxman", "bob"], tax0_ / 10), pick(["taxman", "taxman", "bob"], tax1_ / 10)], stray: false }
    val s: State = {
      listed: "own",
      kinds: kinds, track: track, generator: gen, maker: mk, bal: wealth,
      lp: ACCOUNTS.mapBy(_ => 0), staked: ACCOUNTS.mapBy(_ => 0), supply: 0,
      totalFee: total, makerFee: mfee, share: { bps: 0, to: "sharee" },
      tax: if (SALE_TAX) taxes(tax) else taxes({ ...tax, rates: [NONE, NONE] }),
      taxAdmin: "owner_tax", cum: [pick(ENDS, cum0_), pick(ENDS, cum1_)], last: 0, now: T0, height: H0,
      hist: if (track) [[{ h: H0, v: 0 }], [{ h: H0, v: 0 }]] else [[], []], lpBook: book::empty(ACCOUNTS.union(Set("inc"))) }
    all { st' = s, msg' = Created, res' = "ok", probe' = look(s, 1000, NONE, 0, H0, "alice") }
  }

  /// an amount between nothing and about 1.3 times n, on a log scale
  pure def part(n: int, e: int, f: int): int = n * f / (1000 * 10^e)

  action doProvide = {
    nondet who = USERS.oneOf()
    nondet payee_ = RND.oneOf()
    val payee = pick(PAYEES, payee_)
    nondet e = 0.to(6).oneOf()
    nondet f = 1.to(900).oneOf()
    nondet skew_ = RND.oneOf()
    val skew = pick([0, 0, 1, -1, 4, -4, 5, -5, 6, -6, 100, -100, 500], skew_)
    nondet slip_ = RND.oneOf()
    val slip = pick([NONE, NONE, 0, 10^15, 10^16, 10^17, 5 * 10^17, 5 * 10^17 + 1, 10^18], slip_)
    nondet minMode_ = RND.oneOf()
    val minMode = pick(["none", "none", "exact", "above", "below"], minMode_)
    nondet stake_ = RND.oneOf()
    val stake = pick([false, false, true], stake_)
    nondet funds_ = RND.oneOf()
    val funds = pick(["exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "mismatch", "foreign", "malformed"], funds_)
    nondet free_ = RND.oneOf()
    val free = pick([false, false, false, true], free_)
    nondet small_ = RND.oneOf()
    // a first deposit about as big as the liquidity that stays locked
    val small = st.supply == 0 and small_ < 2500
    val a0 = if (small) min2(st.bal[0].get(who), 600 + f * 2) else part(st.bal[0].get(who), e, f)
    val matched = if (small) min2(st.bal[1].get(who), 600 + f * 2 + small_ % 3) else if (pool(st, 0) == 0) part(st.bal[1].get(who), e, f) else a0 * pool(st, 1) / max2(1, pool(st, 0))
    val a1 = max2(0, if (free) part(st.bal[1].get(who), e, 1000 - f) else matched + matched * skew / 1000)
    val q = sharesFor(a0, a1, pool(st, 0), pool(st, 1), st.supply, MAX_SLIPPAGE).lp
    val minLp = if (minMode == "exact") max2(q, 0) else if (minMode == "above") max2(q, 0) + 1
                else if (minMode == "below") max2(q - 1, 0) else NONE
    perform(Provide({ who: who, a0: a0, a1: a1, slip: slip, minLp: minLp, to: payee, stake: stake, funds: funds }))
  }

  action doWithdraw = {
    nondet who_ = RND.oneOf()
    val holders = NAMES.select(u => st.lp.get(u) > 0)
    val who = if (who_ < 500 or holders.length() == 0) pick(NAMES, who_) else pick(holders, who_)
    nondet e = 0.to(6).oneOf()
    nondet f = 1.to(1000).oneOf()
    nondet kind_ = RND.oneOf()
    val kind = pick(["none", "none", "none", "both", "both", "swapped", "one", "foreign"], kind_)
    nondet d0_ = RND.oneOf()
    val d0 = pick([-1, 0, 0, 1], d0_)
    nondet d1_ = RND.oneOf()
    val d1 = pick([-1, 0, 0, 1], d1_)
    nondet funds_ = RND.oneOf()
    val funds = pick(["exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "foreign", "imbalanced", "extra"], funds_)
    nondet allk_ = RND.oneOf()
    val all_ = pick([true, false, false, false], allk_)
    val lp = if (all_) st.lp.get(who) else part(st.lp.get(who), e, f)
    val r0 = refundOf(pool(st, 0), lp, st.supply)
    val r1 = refundOf(pool(st, 1), lp, st.supply)
    perform(Withdraw({ who: who, lp: lp, min0: max2(0, r0 + d0), min1: max2(0, r1 + d1), minKind: kind, funds: funds }))
  }

  // limits that stand exactly where the trade falls, or just below
  pure val EXACT = -2
  pure val SHORT = -3
  pure def limitAt(limit: int, short: int): int = if (limit >= NONE) limit else max2(0, if (limit == EXACT) short else short - 1)

  action doSwap = {
    nondet who = USERS.oneOf()
    nondet payee_ = RND.oneOf()
    val payee = pick(PAYEES, payee_)
    nondet i = Set(0, 1).oneOf()
    nondet e = 0.to(9).oneOf()
    nondet f = 1.to(1300).oneOf()
    nondet spread_ = RND.oneOf()
    val limit = pick([EXACT, EXACT, SHORT, NONE, 0, 10^15, 5 * 10^15, 10^17, 4 * 10^17, 5 * 10^17, 5 * 10^17, 5 * 10^17, 5 * 10^17, 5 * 10^17, 5 * 10^17, 5 * 10^17, 5 * 10^17 + 1], spread_)
    nondet bk_ = RND.oneOf()
    val bk = pick(["none", "none", "none", "none", "none", "none", "none", "fair", "fair", "fair", "fair", "tight", "tight", "tight", "loose", "loose", "zero", "odd", "odd"], bk_)
    nondet funds_ = RND.oneOf()
    val funds = pick(["exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "mismatch", "foreign", "extra"], funds_)
    val most = min2(st.bal[i].get(who), max2(1000, 2 * pool(st, i)))
    val n = min2(max2(if (f < 20) 0 else 1, part(most, e, f)), 2 * most)
    val x = pool(st, i)
    val y = pool(st, 1 - i)
    // offer per ask around the spot price
    val spot = if (y == 0) E18 else ratio(x, y)
    val q = quote(x, y, n, st.tax[i].rate, bps(st.totalFee))
    val belief = if (bk == "none") NONE else if (bk == "zero") 0 else if (bk == "fair") spot
                 else if (bk == "tight") (if (q.ok and q.ret + q.fee > 0) ratio(q.offer, q.ret + q.fee) else spot)
                 else if (bk == "loose") spot * 2 else spot * 99 / 100
    val spread = limitAt(limit, if (q.ok) shortfall(min2(belief, U128 - 1), q) else 0)
    perform(Swap({ who: who, i: i, amount: n, belief: min2(belief, U128 - 1), spread: spread, to: payee, funds: funds }))
  }

  action doHand = {
    nondet who_ = RND.oneOf()
    nondet dest_ = RND.oneOf()
    nondet e = 0.to(3).oneOf()
    nondet f = 1.to(1100).oneOf()
    val holders = NAMES.select(u => st.lp.get(u) > 0)
    val who = if (holders.length() == 0) "alice" else pick(holders, who_)
    perform(Hand({ who: who, dest: pick(PAYEES, dest_), lp: part(st.lp.get(who), e, f) }))
  }
  action doDonate = {
    nondet who = USERS.oneOf()
    nondet i = Set(0, 1).oneOf()
    nondet e = 1.to(8).oneOf()
    nondet f = 1.to(1000).oneOf()
    perform(Donate({ who: who, i: i, amount: part(st.bal[i].get(who), e, f) }))
  }
  action doFeeShare = {
    nondet who_ = RND.oneOf()
    val who = pick(["owner", "owner", "owner", "alice"], who_)
    nondet b = Set(NONE, 0, 1, 500, 999, 1000, 1001, 10000).oneOf()
    nondet off_ = RND.oneOf()
    nondet payee = Set("sharee", "carol").oneOf()
    perform(FeeShare({ who: who, bps: if (st.share.bps > 0 and off_ % 2 == 0) NONE else b, to: payee }))
  }
  /// taxes that mostly can be
  pure def someTax(kinds: List[str], r0: int, r1: int, t0: int, t1: int): Tax = {
    val RATES = [NONE, NONE, NONE, 0, 1, 10^15, 5 * 10^16, 333 * 10^15, 5 * 10^17, 5 * 10^17, 5 * 10^17 + 1, 10^18]
    val TAKERS = ["taxman", "taxman", "taxman", "bob", "bob", "taxman", "taxman", "bob", "taxman", "x"]
    { rates: [if (kinds[0] == "native" or r0 / 100 % 8 == 0) pick(RATES, r0) else NONE, if (kinds[1] == "native" or r1 / 100 % 8 == 0) pick(RATES, r1) else NONE],
      to: [pick(TAKERS, t0), pick(TAKERS, t1)], stray: (r0 + r1) % 20 == 0 }
  }
  action doSetTax = {
    nondet who_ = RND.oneOf()
    val who = pick([st.taxAdmin, st.taxAdmin, st.taxAdmin, st.taxAdmin, "owner", "alice"], who_)
    nondet r0 = RND.oneOf()
    nondet r1 = RND.oneOf()
    nondet t0 = RND.oneOf()
    nondet t1 = RND.oneOf()
    nondet change_ = RND.oneOf()
    nondet a_ = RND.oneOf()
    perform(SetTax({ who: who, change: change_ % 3 > 0, tax: someTax(st.kinds, r0, r1, t0, t1), admin: pick(["", "", "owner_tax", "dave", "owner", "x"], a_) }))
  }
  action doSetFees = {
    nondet who_ = RND.oneOf()
    val who = pick(["owner", "owner", "owner", "alice"], who_)
    nondet t_ = RND.oneOf()
    val t = pick([0, 1, 30, 30, 300, 9999, 10000, 10001], t_)
    nondet m = Set(0, 1, 1234, 5000, 10000, 10001).oneOf()
    perform(SetFees({ who: who, total: t, maker: m }))
  }
  action doWait = {
    nondet sec = Set(0, 1, 6, 3600, 86400, 2592000).oneOf()
    nondet blk_ = RND.oneOf()
    val blk = pick([0, 1, 1, 2, 5], blk_)
    perform(Wait({ seconds: sec, blocks: blk }))
  }

  action doRegister = {
    nondet who_ = RND.oneOf()
    nondet k_ = RND.oneOf()
    val on = if (st.listed == "none") k_ % 4 > 0 else k_ % 4 == 0
    perform(Register({ who: if (on) pick(["alice", "bob", "owner"], who_) else pick(["owner", "owner", "alice"], who_), on: on }))
  }
  action doOpen = {
    nondet who = USERS.oneOf()
    nondet shape_ = RND.oneOf()
    nondet bare_ = RND.oneOf()
    nondet track = Set(true, false).oneOf()
    nondet r0 = RND.oneOf()
    nondet r1 = RND.oneOf()
    nondet t0 = RND.oneOf()
    nondet t1 = RND.oneOf()
    nondet a_ = RND.oneOf()
    val shape = if (shape_ % 4 == 3) "stranger" else pick(SHAPES, shape_)
    perform(Open({ who: who, shape: shape, coin: denomOf(bare_, a_), bare: bare_ % 6 == 0, track: track, tax: someTax(st.kinds, r0, r1, t0, t1), admin: pick(["owner_tax", "dave", "dave", "x"], a_) }))
  }
  action admin = any { doFeeShare, doFeeShare, doSetFees, doSetTax, doSetTax, doDonate, doHand, doOpen, doRegister }
  action step = any { doProvide, doWithdraw, doSwap, doSwap, doSwap, doWait, doWait, admin }
  /// every behaviour starts with a pool that has liquidity
  action seed = {
    nondet e0 = 0.to(3).oneOf()
    nondet f0 = 1.to(900).oneOf()
    nondet f1 = 1.to(900).oneOf()
    nondet least_ = RND.oneOf()
    nondet lack_ = RND.oneOf()
    // now and then without one of the coins
    val b0 = if (lack_ % 16 == 0 or lack_ % 16 == 1) 0 else part(st.bal[0].get("alice"), e0, f0)
    val b1 = if (lack_ % 16 == 1 or lack_ % 16 == 2) 0 else part(st.bal[1].get("alice"), 0, f1)
    val q = sharesFor(b0, b1, pool(st, 0), pool(st, 1), st.supply, MAX_SLIPPAGE).lp
    perform(Provide({ who: "alice", a0: b0, a1: b1, slip: NONE, minLp: pick([NONE, NONE, NONE, max2(q, 0), max2(q, 0) + 1, max2(q - 1, 0), q + MINIMUM_LIQUIDITY], least_),
                      to: "alice", stake: lack_ % 16 == 3, funds: "exact" }))
  }
  action go = if (st.supply == 0) any { seed, seed, seed, seed, step } else step
  action doUpgrade = {
    nondet k_ = RND.oneOf()
    nondet r0 = RND.oneOf()
    nondet r1 = RND.oneOf()
    nondet t0 = RND.oneOf()
    nondet t1 = RND.oneOf()
    nondet a_ = RND.oneOf()
    perform(Upgrade({ was: release(k_, CONTRACT, RELEASES), tax: someTax(st.kinds, r0, r1, t0, t1), admin: pick(["owner_tax", "owner_tax", "dave", "dave", "x"], a_) }))
  }
  action upgrades = any { go, go, go, doUpgrade }

  // ---- properties ---------------------------------------------------------------------------------------------

  pure def total(m: str -> int): int = m.keys().fold(0, (acc, k) => acc + m.get(k))

  /// nobody's balance is ever negative, LP supply is exactly what accounts and stakers hold
  val nonNegative = [0, 1].indices().forall(i => st.bal[i].keys().forall(a => st.bal[i].get(a) >= 0))
  val lpBacked = st.supply == total(st.lp) + total(st.staked) and (st.supply > 0 implies st.lp.get("pair") >= MINIMUM_LIQUIDITY)
  /// quotes are internally consistent: paid out + fee never more than the curve allows
  val quotesSound = [0, 1].indices().forall(i => {
    val q = probe.sim[i]
    val x = pool(st, i)
    val y = pool(st, 1 - i)
    val dx = probe.amount[i] - mulDec(probe.amount[i], st.tax[i].rate)
    q.ret >= 0 implies (x + dx) * (y - q.ret - q.fee) >= x * y - (x + dx)
  })
  val Safe = nonNegative and lpBacked and quotesSound
}

module xyk_pair {
  import xyk(SALE_TAX = false).*
}
module xyk_sale_tax {
  import xyk(SALE_TAX = true).*
}
