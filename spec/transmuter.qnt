// -*- mode: Bluespec; -*-
/// The transmuter: two to five coins of equal worth traded one for one (up to their decimals), at no fee.
/// One share is one unit of the finest coin.
module transmuter {
  import math.* from "./math"

  type Asset = { i: int, n: int }        // i = number of coins: not a coin of the pool
  type Msg =
      Provide({ who: str, assets: List[Asset], dest: str, stake: bool, funds: str })
    | Withdraw({ who: str, lp: int, assets: List[Asset], funds: str })
    | Swap({ who: str, i: int, j: int, n: int, dest: str, funds: str })      // j = -1: not named
    | Donate({ who: str, i: int, n: int })
    | Unsupported({ who: str, what: int })
    | Open({ who: str, coins: List[int] })       // a transmuter for these coins; beyond the pool's: 5 unregistered, 6 a token contract
    | Created
  type State = { decimals: List[int], bal: List[str -> int], lp: str -> int, supply: int }
  // what the pool says it is
  type About = { coins: List[int], kind: str, owner: str, here: bool, bare: bool }
  type Probe = { about: About, i: int, j: int, n: int, sim: int, rev: int, lp: int, share: List[int] }

  var st: State
  var msg: Msg
  var res: str
  var probe: Probe

  pure val USERS = ["alice", "bob", "carol"]
  pure val ALL = Set("alice", "bob", "carol", "pair")

  type Next = { s: State, why: str }
  pure def refuse(s: State, why: str): Next = { s: s, why: why }
  pure def accept(s: State): Next = { s: s, why: "ok" }
  pure def coins(s: State): int = s.decimals.length()
  pure def pool(s: State, i: int): int = s.bal[i].get("pair")
  pure def finest(s: State): int = s.decimals.foldl(0, (m, d) => max2(m, d))
  /// what one unit of coin i is worth, in units of the finest
  pure def worth(s: State, i: int): int = 10^(finest(s) - s.decimals[i])
  pure def pay(s: State, i: int, payer: str, payee: str, n: int): State = {
    val b1 = s.bal[i].set(payer, s.bal[i].get(payer) - n)
    { ...s, bal: s.bal.replaceAt(i, b1.set(payee, b1.get(payee) + n)) }
  }
  pure def known(s: State, l: List[Asset]): bool = l.foldl(true, (b, a) => b and a.i < coins(s))
  pure def distinct(l: List[Asset]): bool = l.indices().forall(j => l.indices().forall(k => j == k or l[j].i != l[k].i))
  pure def value(s: State, l: List[Asset]): int = l.foldl(0, (v, a) => v + a.n * worth(s, a.i))
  pure def asked(l: List[Asset], i: int): int = l.foldl(0, (v, a) => if (a.i == i) v + a.n else v)
  pure def affords(s: State, who: str, l: List[Asset]): bool =
    l.foldl(true, (b, a) => b and (a.i >= coins(s) or s.bal[a.i].get(who) >= a.n))
  pure def transfer(s: State, l: List[Asset], payer: str, payee: str): State = l.foldl(s, (x, a) => pay(x, a.i, payer, payee, a.n))
  pure def share(s: State, lp: int, i: int): int = mulDec(pool(s, i), ratio(lp, s.supply))

  /// the coin asked for: with two coins it is always the other one
  pure def wanted(s: State, i: int, j: int): int = if (coins(s) == 2) 1 - i else j
  pure def swapOut(s: State, i: int, j: int, n: int): int = n * worth(s, i) / worth(s, j)

  pure def exec(s: State, m: Msg): Next = match m {
    | Provide(x) =>
        if (not(affords(s, x.who, x.assets))) refuse(s, "insufficient_balance")
        else if (x.stake) refuse(s, "no_staking")
        else if (not(distinct(x.assets))) refuse(s, "doubling")
        else if (x.assets.length() == 0) refuse(s, "nothing")
        else if (not(known(s, x.assets))) refuse(s, "not_a_pool_coin")
        else if (x.funds != "exact") refuse(s, "funds_mismatch")
        else if (value(s, x.assets) == 0) refuse(s, "zero_mint")
        else {
          val paid = transfer(s, x.assets, x.who, "pair")
          val n = value(s, x.assets)
          accept({ ...paid, lp: paid.lp.set(x.dest, paid.lp.get(x.dest) + n), supply: paid.supply + n })
        }
    | Withdraw(x) =>
        if (x.funds != "exact") refuse(s, "not_shares")
        else if (x.lp == 0) refuse(s, "no_shares_sent")
        else if (s.lp.get(x.who) < x.lp) refuse(s, "insufficient_balance")
        else if (x.assets.length() == 0) {
          val l = range(0, coins(s)).foldl([], (r, i) => r.append({ i: i, n: share(s, x.lp, i) }))
          val out = transfer(s, l, "pair", x.who)
          accept({ ...out, lp: out.lp.set(x.who, out.lp.get(x.who) - x.lp), supply: out.supply - x.lp })
        }
        else if (not(known(s, x.assets))) refuse(s, "not_a_pool_coin")
        else if (range(0, coins(s)).foldl(false, (b, i) => b or asked(x.assets, i) > pool(s, i))) refuse(s, "pool_too_small")
        else if (value(s, x.assets) > x.lp) refuse(s, "not_enough_shares")
        else if (value(s, x.assets) == 0) refuse(s, "zero_burn")
        else {
          val out = transfer(s, x.assets, "pair", x.who)
          val n = value(s, x.assets)
          accept({ ...out, lp: out.lp.set(x.who, out.lp.get(x.who) - n), supply: out.supply - n })
        }
    | Swap(x) =>
        if (x.funds == "none" or x.n == 0) refuse(s, "nothing_sent")
        else if (x.i >= coins(s)) refuse(s, "not_a_pool_coin")
        else if (s.bal[x.i].get(x.who) < x.n) refuse(s, "insufficient_balance")
        else if (x.funds != "exact") refuse(s, "funds_mismatch")
        else if (coins(s) > 2 and x.j == NONE) refuse(s, "ask_not_named")
        else if (wanted(s, x.i, x.j) >= coins(s)) refuse(s, "not_a_pool_coin")
        else {
          val j = wanted(s, x.i, x.j)
          val paid = pay(s, x.i, x.who, "pair", x.n)
          val out = swapOut(s, x.i, j, x.n)
          if (out > pool(paid, j)) refuse(s, "pool_too_small")
          else if (out == 0) refuse(s, "zero_payout")
          else accept(pay(paid, j, "pair", x.dest, out))
        }
    | Donate(x) => if (s.bal[x.i].get(x.who) < x.n or x.n == 0) refuse(s, "insufficient_balance") else accept(pay(s, x.i, x.who, "pair", x.n))
    | Unsupported(_) => refuse(s, "unsupported")
    | Open(x) =>
        if (x.coins.length() < 2 or x.coins.length() > 5) refuse(s, "two_to_five")
        else if (not(x.coins.indices().forall(j => x.coins.indices().forall(k => j == k or x.coins[j] != x.coins[k])))) refuse(s, "doubling")
        else if (x.coins.foldl(false, (b, c) => b or c == 6)) refuse(s, "coins_only")
        else if (x.coins.foldl(false, (b, c) => b or c >= coins(s))) refuse(s, "unregistered")
        else accept(s)
    | Created => accept(s)
  }

  pure def look(s: State, i: int, j_: int, n: int, lp: int): Probe = {
    val j = if (i == j_) (j_ + 1) % coins(s) else j_
    val out = swapOut(s, i, j, n)
    { about: { coins: range(0, coins(s)), kind: "transmuter", owner: "owner", here: true, bare: true }, i: i, j: j, n: n,
      sim: if (out > pool(s, j)) NONE else out,
      rev: if (n > pool(s, j)) NONE else n * worth(s, j) / worth(s, i),
      lp: lp, share: range(0, coins(s)).foldl([], (r, k) => r.append(if (s.supply == 0) NONE else share(s, lp, k))) }
  }

  // ---- behaviours ---------------------------------------------------------------------------------------------

  action perform(m: Msg): bool = {
    nondet a_ = RND.oneOf()
    nondet b_ = RND.oneOf()
    nondet n_ = RND.oneOf()
    nondet e = 0.to(8).oneOf()
    val r = exec(st, m)
    val j = b_ % coins(st)
    val n = pick([r.s.bal[j].get("pair"), r.s.bal[j].get("pair") + 1, r.s.bal[j].get("pair") * (n_ + 1) / 10^e / 9999, n_], a_ / 8)
    all { st' = r.s, msg' = m, res' = r.why, probe' = look(r.s, a_ % coins(st), j, n, r.s.supply * n_ / 10^e / 9999) }
  }
  action init = {
    nondet count_ = RND.oneOf()
    nondet d_ = RND.oneOf()
    nondet rich = 0.to(9).oneOf()
    val n = pick([2, 2, 3, 3, 4, 5], count_)
    val decimals = range(0, n).foldl({ l: [], k: d_ }, (x, i) => { l: x.l.append(pick([6, 6, 18, 8, 0, 6, 18, 3, 6], x.k)), k: (x.k * 5 + 7) / 3 }).l
    val s: State = { decimals: decimals, lp: ALL.mapBy(a => 0), supply: 0,
                     bal: range(0, n).foldl([], (r, i) => r.append(ALL.mapBy(a => if (a == "pair") 0 else 100 * 10^(rich + decimals[i])))) }
    all { st' = s, msg' = Created, res' = "ok", probe' = look(s, 0, 1, 5, 0) }
  }
  pure def part(n: int, e: int, f: int): int = n * f / (1000 * 10^e)

  action doProvide = {
    nondet who_ = RND.oneOf()
    nondet dest_ = RND.oneOf()
    nondet which = 1.to(31).oneOf()
    nondet e = 0.to(6).oneOf()
    nondet f_ = RND.oneOf()
    nondet odd_ = RND.oneOf()
    nondet funds_ = RND.oneOf()
    val who = pick(USERS, who_)
    val l = range(0, coins(st)).foldl({ l: [], w: which, k: f_ }, (x, i) =>
      { l: if (x.w % 2 == 1) x.l.append({ i: i, n: if (x.k % 9 == 0) 0 else part(st.bal[i].get(who), e, x.k % 1001) }) else x.l, w: x.w / 2, k: x.k * 3 / 2 + 1 }).l
    val odd = if (odd_ % 20 == 0) l.append({ i: coins(st), n: 5 }) else if (odd_ % 20 == 1 and l.length() > 0) l.append(l[0]) else l
    perform(Provide({ who: who, assets: if (odd_ % 3 == 0) odd.foldl([], (r, a) => [a].concat(r)) else odd, dest: pick([who, who, "alice", "bob", "carol", "pair"], dest_), stake: odd_ % 23 == 0,
                      funds: pick(["exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "short", "foreign"], funds_) }))
  }
  action doWithdraw = {
    nondet who_ = RND.oneOf()
    nondet e = 0.to(6).oneOf()
    nondet f = 0.to(1000).oneOf()
    nondet which = 0.to(31).oneOf()
    nondet mode_ = RND.oneOf()
    nondet odd_ = RND.oneOf()
    nondet funds_ = RND.oneOf()
    val holders = USERS.select(u => st.lp.get(u) > 0)
    val who = if (holders.length() == 0 or who_ < 300) pick(USERS, who_) else pick(holders, who_)
    val lp = if (odd_ % 5 == 0) st.lp.get(who) else part(st.lp.get(who), e, f)
    // each coin asked for: as much as all the shares buy, or the pool has, or about, or a part of it
    val chosen = range(0, coins(st)).foldl({ l: [], w: which, left: lp, k: mode_ }, (x, i) =>
      if (x.w % 2 == 0) { ...x, w: x.w / 2 }
      else {
        val most = x.left / worth(st, i)
        val n = pick([most, most, min2(most, pool(st, i)), min2(most, pool(st, i)), part(most, 0, x.k % 1000), part(most, 0, x.k % 1000), pool(st, i) + 1, most + 1, 0], x.k)
        { l: x.l.append({ i: i, n: n }), w: x.w / 2, left: max2(x.left - n * worth(st, i), 0), k: x.k * 3 / 2 + 1 }
      }).l
    val odd = if (odd_ % 20 == 1) chosen.append({ i: coins(st), n: 5 }) else if (odd_ % 7 == 2 and chosen.length() > 0) chosen.append(chosen[0]) else chosen
    // the shares sent are sometimes just what the coins are worth, or one off
    val need = chosen.foldl(0, (x, c) => x + c.n * worth(st, c.i))
    val sent = if (odd_ % 4 == 3 and mode_ % 3 != 0) max2(1, need + pick([0, 1, -1, 2], odd_ / 4)) else lp
    perform(Withdraw({ who: who, lp: sent, assets: if (mode_ % 3 == 0) [] else odd, funds: pick(["exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "foreign", "both"], funds_) }))
  }
  action doSwap = {
    nondet who_ = RND.oneOf()
    nondet dest_ = RND.oneOf()
    nondet i = 0.to(4).oneOf()
    nondet j_ = RND.oneOf()
    nondet e = 0.to(6).oneOf()
    nondet f = 0.to(1000).oneOf()
    nondet mode_ = RND.oneOf()
    nondet funds_ = RND.oneOf()
    val who = pick(USERS, who_)
    val c = i % coins(st)
    val j = pick([NONE, NONE, 0, 1, 2, 3, 4, 1, 0, 2, coins(st)], j_)
    val to_ = wanted(st, c, j)
    // around what empties the pool of the coin asked for
    val drain = if (to_ >= 0 and to_ < coins(st)) pool(st, to_) * worth(st, to_) / worth(st, c) else 0
    val n = pick([drain, drain + 1, max2(drain - 1, 0), part(drain, e, f), part(drain, e, f), part(drain, e, f), part(st.bal[c].get(who), e, f), f], mode_)
    perform(Swap({ who: who, i: if (mode_ % 37 == 0) coins(st) else c, j: j, n: n, dest: pick([who, who, "alice", "bob", "carol", "pair"], dest_),
                   funds: pick(["exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "exact", "short", "foreign", "none"], funds_) }))
  }
  action doDonate = {
    nondet who_ = RND.oneOf()
    nondet i = 0.to(4).oneOf()
    nondet e = 0.to(6).oneOf()
    nondet f = 0.to(300).oneOf()
    val who = pick(USERS, who_)
    perform(Donate({ who: who, i: i % coins(st), n: part(st.bal[i % coins(st)].get(who), e, f) }))
  }
  action doUnsupported = {
    nondet who_ = RND.oneOf()
    perform(Unsupported({ who: pick(USERS, who_), what: who_ / 3 % 3 }))
  }
  action doOpen = {
    nondet who_ = RND.oneOf()
    nondet c_ = RND.oneOf()
    nondet d_ = RND.oneOf()
    val l = range(0, coins(st))
    val few = [l.slice(0, c_ % coins(st)), l, l.foldl([], (r, i) => [i].concat(r)), l.append(l[d_ % coins(st)]), l.slice(0, coins(st) - 1).append(5),
               l.slice(1, coins(st)).append(6), [0, 1], [1, 0], [c_ % coins(st), d_ % coins(st)], range(0, 6), [], [0]]
    perform(Open({ who: pick(USERS, who_), coins: pick(few, d_ / 7 + c_) }))
  }
  action go = {
    nondet k_ = RND.oneOf()
    if (k_ % 100 < 30) doProvide
    else if (k_ % 100 < 60) doWithdraw
    else if (k_ % 100 < 92) doSwap
    else if (k_ % 100 < 97) doDonate
    else if (k_ % 100 < 98) doUnsupported
    else doOpen
  }
  action step = go

  // ---- what must hold -------------------------------------------------------------------------------------------

  /// every share is covered by coins worth it
  val Backed = range(0, coins(st)).foldl(0, (v, i) => v + pool(st, i) * worth(st, i)) >= st.supply
  val Sums = and { ALL.fold(0, (a, u) => a + st.lp.get(u)) == st.supply,
                   range(0, coins(st)).foldl(true, (b, i) => b and ALL.forall(u => st.bal[i].get(u) >= 0)) }
  val Safe = Backed and Sums
}
