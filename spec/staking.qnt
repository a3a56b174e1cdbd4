// -*- mode: Bluespec; -*-
/// ASTRO staking: shares (xASTRO) of one pot, its balance history, and the pair that wraps it as a swap.
module staking {
  import math.* from "./math"
  import upgrades.* from "./upgrades"
  import snapshots.* from "./snapshots"

  type Coins = { denom: str, amount: int }
  type Msg =
      Enter({ who: str, coins: List[Coins], dest: str })
    | EnterHook({ who: str, coins: List[Coins], hook: str, amount: int, dest: str })   // hook: "leave" | "swap", with `amount` declared
    | Leave({ who: str, coins: List[Coins], dest: str })
    | Swap({ who: str, offer: str, amount: int, coins: List[Coins], dest: str })
    | NotSwap({ who: str, what: str })
    | Send({ who: str, denom: str, amount: int, dest: str })
    | Wait({ seconds: int })
    | Upgrade(Release)
    | Begin({ what: str })                               // another staking contract or pair, set up well or not
    | Created

  type Hists = { of: str -> List[Mark], supply: List[Mark] }
  type State = { astro: str -> int, x: str -> int, supply: int, hist: Hists, now: int, h: int, fair: bool }
  type Quote = { offer: str, amount: int, get: int, give: int }
  type Probe = { at: { user: str, t: int, balance: int, supply: int }, shares: int, deposit: int, quote: Quote }

  var st: State
  var msg: Msg
  var res: str
  var probe: Probe

  pure val PEOPLE = Set("alice", "bob", "carol")
  pure val HOLDERS = Set("alice", "bob", "carol", "staking", "pair")
  pure val LOCK = 1000

  type Next = { s: State, why: str }
  pure def refuse(s: State, why: str): Next = { s: s, why: why }
  pure def accept(s: State): Next = { s: s, why: "ok" }

  pure def deposit(s: State): int = s.astro.get("staking")
  pure def moveAstro(s: State, payer: str, payee: str, n: int): State = {
    val b = s.astro.set(payer, s.astro.get(payer) - n)
    { ...s, astro: b.set(payee, b.get(payee) + n) }
  }
  /// the hook sees every movement: it notes both new balances and the supply
  pure def moveX(s: State, payer: str, payee: str, n: int): State = {
    val a = s.x.set(payer, s.x.get(payer) - n)
    val b = a.set(payee, a.get(payee) + n)
    val h1 = s.hist.of.set(payer, stamp(s.hist.of.get(payer), s.now, b.get(payer)))
    val h2 = h1.set(payee, stamp(h1.get(payee), s.now, b.get(payee)))
    { ...s, x: b, hist: { of: if (payer == payee) s.hist.of else h2, supply: stamp(s.hist.supply, s.now, s.supply) } }
  }
  pure def mint(s: State, n: int): State = {
    val b = s.x.set("staking", s.x.get("staking") + n)
    { ...s, x: b, supply: s.supply + n,
      hist: { of: s.hist.of.set("staking", stamp(s.hist.of.get("staking"), s.now, b.get("staking"))), supply: stamp(s.hist.supply, s.now, s.supply + n) } }
  }
  pure def burn(s: State, n: int): State = {
    val b = s.x.set("staking", s.x.get("staking") - n)
    { ...s, x: b, supply: s.supply - n,
      hist: { of: s.hist.of.set("staking", stamp(s.hist.of.get("staking"), s.now, b.get("staking"))), supply: stamp(s.hist.supply, s.now, s.supply - n) } }
  }
  pure def pays(coins: List[Coins], denom: str): int =
    if (coins.length() == 1 and coins[0].denom == denom) coins[0].amount else 0
  pure def has(s: State, who: str, c: Coins): bool =
    if (c.denom == "astro") s.astro.get(who) >= c.amount else if (c.denom == "x") s.x.get(who) >= c.amount else true
  pure def affordable(s: State, who: str, coins: List[Coins]): bool = coins.foldl(true, (b, c) => b and has(s, who, c))

  /// shares for `n` on top of pot `d`
  pure def sharesFor(d: int, supply: int, n: int): int =
    if (supply == 0 or d == 0) max2(0, n - LOCK) else n * supply / d

  pure def enter(s: State, who: str, n: int, dest: str): Next = {
    val d = deposit(s)
    val opening = s.supply == 0 or d == 0
    val got = sharesFor(d, s.supply, n)
    if (got == 0) refuse(s, "too_small")
    else {
      val s1 = moveAstro(s, who, "staking", n)
      val s2 = if (opening) mint(s1, LOCK) else s1
      accept(moveX(mint(s2, got), "staking", dest, got))
    }
  }
  pure def leave(s: State, who: str, n: int, dest: str): Next = {
    val s1 = moveX(s, who, "staking", n)
    val out = n * deposit(s) / s.supply
    if (out == 0) refuse(s, "nothing_out")
    else accept(moveX(moveAstro(burn(s1, n), "staking", dest, out), "staking", "staking", 1))
  }
  pure val CONTRACT = "astroport-staking"
  pure val RELEASES = ["2.0.0", "2.1.0"]
  pure def exec(s: State, m: Msg): Next = match m {
    | Upgrade(x) => if (knows(x, CONTRACT, RELEASES)) accept(s) else refuse(s, "release")
    | Enter(x) =>
        if (not(affordable(s, x.who, x.coins))) refuse(s, "insufficient_balance")
        else if (pays(x.coins, "astro") == 0) refuse(s, "wrong_coins")
        else enter(s, x.who, pays(x.coins, "astro"), x.dest)
    | EnterHook(x) =>
        if (not(affordable(s, x.who, x.coins))) refuse(s, "insufficient_balance")
        else if (pays(x.coins, "astro") == 0) refuse(s, "wrong_coins")
        else {
          val n = pays(x.coins, "astro")
          val r = enter(s, x.who, n, "staking")
          val got = sharesFor(deposit(s), s.supply, n)
          // the hook contract gets exactly the minted shares: here it leaves again, directly or through the pair
          if (r.why != "ok") r
          else if (x.hook == "swap" and x.amount != got) refuse(s, "wrong_amount")
          else if (x.hook == "swap") { val q = leave(moveX(r.s, "staking", "pair", got), "pair", got, x.dest)
                                       if (q.why == "ok") q else refuse(s, q.why) }
          else { val q = leave(r.s, "staking", got, x.dest)
                 if (q.why == "ok") q else refuse(s, q.why) }
        }
    | Leave(x) =>
        if (not(affordable(s, x.who, x.coins))) refuse(s, "insufficient_balance")
        else if (pays(x.coins, "x") == 0) refuse(s, "wrong_coins")
        else leave(s, x.who, pays(x.coins, "x"), x.dest)
    | Swap(x) =>
        if (not(affordable(s, x.who, x.coins))) refuse(s, "insufficient_balance")
        else if (x.dest == "unreadable") refuse(s, "address")        // (who stakes or unstakes directly leaves that to the bank)
        else if (x.offer != "astro" and x.offer != "x") refuse(s, "wrong_asset")
        else if (x.amount == 0 or pays(x.coins, x.offer) != x.amount) refuse(s, "wrong_coins")
        else if (x.offer == "astro") { val q = enter(moveAstro(s, x.who, "pair", x.amount), "pair", x.amount, x.dest)
                                       if (q.why == "ok") q else refuse(s, q.why) }
        else { val q = leave(moveX(s, x.who, "pair", x.amount), "pair", x.amount, x.dest)
               if (q.why == "ok") q else refuse(s, q.why) }
    | NotSwap(_) => refuse(s, "not_supported")
    | Begin(x) => if (x.what == "staking" or x.what == "pair" or x.what == "reversed") accept(s) else refuse(s, "invalid")
    | Send(x) =>
        if (x.amount == 0) refuse(s, "zero")
        else if (not(has(s, x.who, { denom: x.denom, amount: x.amount }))) refuse(s, "insufficient_balance")
        else accept(if (x.denom == "astro") moveAstro(s, x.who, x.dest, x.amount) else moveX(s, x.who, x.dest, x.amount))
    | Wait(x) => accept({ ...s, now: s.now + x.seconds, h: s.h + 1 })
    | Created => accept(s)
  }
  /// a share is never worth less after a message than before (opening deposits aside)
  pure def judged(a: State, b: State): State =
    { ...b, fair: a.supply == 0 or b.supply == 0 or deposit(a) * b.supply <= deposit(b) * a.supply }

  pure def look(s: State, u: str, t: int, offer: str, n: int): Probe = {
    val d = deposit(s)
    val stake = sharesFor(d, s.supply, n)
    val tooSmall = (s.supply == 0 or d == 0) and n <= LOCK
    { at: { user: u, t: t, balance: valueAt(s.hist.of.get(u), t, s.now), supply: valueAt(s.hist.supply, t, s.now) },
      shares: s.supply, deposit: d,
      quote: { offer: offer, amount: n,
               get: if (offer == "astro") { if (tooSmall) NONE else stake } else if (n > s.supply) NONE else n * d / s.supply,
               // how much of `offer` gets `amount` of the other
               give: if (s.supply == 0 or d == 0) NONE
                     else if (offer == "astro") { if (n > s.supply) NONE else n * d / s.supply }
                     else n * s.supply / d } }
  }

  // ---- behaviours ---------------------------------------------------------------------------------------------

  pure val SIZES = [1, 999, 1000, 1001, 2000, 12345, 999983, 10^9 + 7, 5 * 10^12 + 1, 10^15 + 37, 10^21 + 9, 3 * 10^23]
  action perform(m: Msg): bool = {
    nondet u_ = RND.oneOf()
    nondet t_ = RND.oneOf()
    nondet o_ = Set("astro", "x").oneOf()
    nondet n_ = RND.oneOf()
    val r = exec(st, m)
    val s2 = judged(st, r.s)
    val u = pick(["alice", "bob", "carol", "staking", "pair"], u_)
    val moments = s2.hist.of.get(u).foldl([s2.now, s2.now, s2.now - 1, s2.now + 1, 0], (l, x) => l.append(x.t).append(x.t + 1))
    all { st' = s2, msg' = m, res' = r.why, probe' = look(s2, u, pick(moments, t_), o_, if (n_ % 5 == 0) max2(1, s2.supply / pick([1, 2, 3], n_ / 5)) else pick(SIZES, n_)) }
  }
  action init = {
    val s: State = { astro: HOLDERS.mapBy(h => if (PEOPLE.contains(h)) 10^25 else 0), x: HOLDERS.mapBy(_ => 0), supply: 0,
                     hist: { of: HOLDERS.mapBy(_ => []), supply: [] }, now: 1600000000, h: 100, fair: true }
    all { st' = s, msg' = Created, res' = "ok", probe' = look(s, "alice", 1600000000, "astro", 5000) }
  }
  pure def amountFor(s: State, who: str, denom: str, n_: int): int = {
    val have = if (denom == "astro") s.astro.get(who) else s.x.get(who)
    if (denom == "x") pick([have, have / 2, have / 3, 1, min2(have, 1000), have + 1, have - 1, have / 1000000], n_)
    else pick(SIZES.concat([1, 2, 10, deposit(s) / 2, deposit(s), deposit(s) / 7, if (s.supply > 0) deposit(s) / s.supply else 1]), n_)
  }
  pure def coinsFor(denom: str, n: int, k_: int): List[Coins] =
    if (k_ % 25 == 0) [] else if (k_ % 25 == 1) [{ denom: "other", amount: n }]
    else if (k_ % 25 == 2) [{ denom: denom, amount: n }, { denom: "other", amount: 1 }]
    else if (k_ % 25 == 3) [{ denom: if (denom == "x") "astro" else "x", amount: n }]
    else if (n <= 0) [] else [{ denom: denom, amount: n }]
  action doEnter = {
    nondet who = PEOPLE.oneOf()
    nondet dest = Set("alice", "bob", "carol", "staking", "pair").oneOf()
    nondet n_ = RND.oneOf()
    nondet k_ = RND.oneOf()
    perform(Enter({ who: who, coins: coinsFor("astro", amountFor(st, who, "astro", n_), k_), dest: if (k_ / 25 % 3 == 0) dest else who }))
  }
  action doHook = {
    nondet who = PEOPLE.oneOf()
    nondet dest = PEOPLE.oneOf()
    nondet n_ = RND.oneOf()
    nondet k_ = RND.oneOf()
    nondet hook = Set("leave", "swap").oneOf()
    val n = max2(0, amountFor(st, who, "astro", n_))
    val got = sharesFor(deposit(st), st.supply, n)
    perform(EnterHook({ who: who, coins: coinsFor("astro", n, k_), hook: hook, amount: if (k_ / 25 % 7 == 0) got + 1 else got, dest: dest }))
  }
  action doLeave = {
    nondet who_ = RND.oneOf()
    nondet dest = PEOPLE.oneOf()
    nondet n_ = RND.oneOf()
    nondet k_ = RND.oneOf()
    val rich = ["alice", "bob", "carol"].select(u => st.x.get(u) > 0)
    val who = if (rich.length() == 0) "alice" else pick(rich, who_)
    perform(Leave({ who: who, coins: coinsFor("x", max2(0, amountFor(st, who, "x", n_)), k_), dest: if (k_ / 25 % 3 == 0) dest else who }))
  }
  action doSwap = {
    nondet who_ = RND.oneOf()
    nondet dest = PEOPLE.oneOf()
    nondet n_ = RND.oneOf()
    nondet k_ = RND.oneOf()
    nondet o_ = RND.oneOf()
    val rich = ["alice", "bob", "carol"].select(u => st.x.get(u) > 0)
    val offer = if (o_ % 30 == 0) "other" else if (rich.length() == 0 or o_ % 2 == 0) "astro" else "x"
    val who = if (offer != "x") pick(["alice", "bob"], who_) else pick(rich, who_)
    val n = max2(0, amountFor(st, who, if (offer == "x") "x" else "astro", n_))
    perform(Swap({ who: who, offer: offer, amount: if (o_ % 23 == 0) max2(0, n + 1) else max2(0, n), coins: coinsFor(offer, n, if (k_ % 25 == 2) 4 else k_), dest: if (k_ / 25 % 24 == 7) "unreadable" else if (k_ / 25 % 3 == 0) dest else who }))
  }
  action doSend = {
    nondet who = PEOPLE.oneOf()
    nondet dest = Set("alice", "bob", "carol", "staking", "staking", "staking").oneOf()
    nondet n_ = RND.oneOf()
    nondet d = Set("astro", "x", "x").oneOf()
    perform(Send({ who: who, denom: d, amount: max2(0, amountFor(st, who, d, n_)), dest: dest }))
  }
  action doWait = {
    nondet k_ = RND.oneOf()
    perform(Wait({ seconds: pick([0, 1, 1, 5, 3600, 86400], k_) }))
  }
  action doBegin = {
    nondet k_ = RND.oneOf()
    perform(Begin({ what: pick(["staking", "pair", "reversed", "denom", "factory", "admin", "one", "three", "params", "astro", "xastro", "elsewhere"], k_) }))
  }
  action doNotSwap = {
    nondet what = Set("provide", "withdraw", "receive", "update").oneOf()
    perform(NotSwap({ who: "alice", what: what }))
  }
  action go = any { doEnter, doEnter, doLeave, doLeave, doSwap, doSwap, doHook, doSend, doWait, doWait, if (st.h % 11 == 0) any { doNotSwap, doBegin } else doWait }
  action doUpgrade = {
    nondet k_ = RND.oneOf()
    perform(Upgrade(release(k_, CONTRACT, RELEASES)))
  }
  action upgrades = any { go, go, go, doUpgrade }

  // ---- properties ---------------------------------------------------------------------------------------------

  val sharesBacked = st.supply == HOLDERS.fold(0, (n, h) => n + st.x.get(h))
  val lockHeld = st.supply == 0 or st.x.get("staking") >= LOCK
  val nothingLost = HOLDERS.fold(0, (n, h) => n + st.astro.get(h)) == 3 * 10^25 and HOLDERS.forall(h => st.astro.get(h) >= 0 and st.x.get(h) >= 0)

  val historyCurrent = HOLDERS.forall(h => latest(st.hist.of.get(h)) == st.x.get(h)) and latest(st.hist.supply) == st.supply
  val Safe = sharesBacked and lockHeld and nothingLost and st.fair and historyCurrent
}
