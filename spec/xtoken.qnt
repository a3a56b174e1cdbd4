// -*- mode: Bluespec; -*-
/// The xASTRO cw20 token: balances, allowances, a minter with a cap, and the history of balances and supply.
module xtoken {
  import math.* from "./math"
  import upgrades.* from "./upgrades"
  import snapshots.* from "./snapshots"

  /// expires: "never" | "height" | "time"
  type Allowance = { n: int, expires: str, at: int }
  type Msg =
      Transfer({ who: str, dest: str, amount: int })
    | Send({ who: str, amount: int, accepts: bool })                  // to the contract `sink`
    | Burn({ who: str, amount: int })
    | Mint({ who: str, dest: str, amount: int })
    | Allow({ who: str, spender: str, amount: int, expires: str, at: int, up: bool })   // expires "": not given
    | TransferFrom({ who: str, owner: str, dest: str, amount: int })
    | BurnFrom({ who: str, owner: str, amount: int })
    | SendFrom({ who: str, owner: str, amount: int, accepts: bool })
    | NewToken({ balances: List[{ who: str, amount: int }], cap: int, logo: str, name: int, symbol: str, decimals: int })
    | Describe({ who: str, project: str, description: str, boss: str })    // "-": not given
    | Logo({ who: str, kind: str })
    | Wait({ seconds: int })
    | Upgrade(Release)
    | Created
  /// what is told about the token, by whoever may tell it ("" if nobody)
  type Market = { on: bool, project: str, description: str, boss: str, logo: str }
  type State = { market: Market, bal: str -> int, known: str -> bool, supply: int, hist: str -> List[Mark], supplyHist: List[Mark],
                 allow: (str, str) -> Allowance, minter: bool, cap: int, got: { by: str, amount: int }, now: int, h: int }
  type Probe = { at: { user: str, h: int, balance: int, supply: int }, allow: { owner: str, spender: str, a: Allowance },
                 page: { after: str, limit: int, names: List[str] }, spenders: { owner: str, after: str, limit: int, names: List[str] }, cap: int }

  var st: State
  var msg: Msg
  var res: str
  var probe: Probe

  pure val USERS = ["alice", "bob", "carol", "minter"]
  pure val ALL = ["alice", "bob", "carol", "minter", "sink"]   // `sink` is a contract; it may also act
  pure val NOTHING: Allowance = { n: 0, expires: "none", at: 0 }

  type Next = { s: State, why: str }
  pure def refuse(s: State, why: str): Next = { s: s, why: why }
  pure def accept(s: State): Next = { s: s, why: "ok" }

  /// every write leaves a key behind, also of a zero balance
  pure def write(s: State, who: str, n: int): State =
    { ...s, bal: s.bal.set(who, n), known: s.known.set(who, true), hist: s.hist.set(who, stamp(s.hist.get(who), s.h, n)) }
  pure def move(s: State, payer: str, payee: str, n: int): State = {
    val a = write(s, payer, s.bal.get(payer) - n)
    write(a, payee, a.bal.get(payee) + n)
  }
  pure def resupply(s: State, n: int): State = { ...s, supply: n, supplyHist: stamp(s.supplyHist, s.h, n) }
  pure def expired(s: State, kind: str, at: int): bool = (kind == "height" and s.h >= at) or (kind == "time" and s.now >= at)
  pure def spendable(s: State, owner: str, who: str, n: int): str = {
    val a = s.allow.get((owner, who))
    if (a == NOTHING) "no_allowance" else if (expired(s, a.expires, a.at)) "expired" else if (a.n < n) "too_little_allowed"
    else if (s.bal.get(owner) < n) "insufficient_balance" else ""
  }
  pure def spend(s: State, owner: str, who: str, n: int): State =
    { ...s, allow: s.allow.set((owner, who), { ...s.allow.get((owner, who)), n: s.allow.get((owner, who)).n - n }) }

  pure def received(s: State, who: str, n: int): State = { ...s, got: { by: who, amount: n } }

  pure def allowing(s: State, x: { who: str, spender: str, amount: int, expires: str, at: int, up: bool }): Next = {
    val a = s.allow.get((x.who, x.spender))
    val bad = x.expires != "" and expired(s, x.expires, x.at)
    val keep: Allowance = { n: a.n, expires: if (a == NOTHING) "never" else a.expires, at: a.at }
    val c: Allowance = if (x.expires == "") keep else { n: a.n, expires: x.expires, at: x.at }
    pure def grant(n: int): State = { ...s, allow: s.allow.set((x.who, x.spender), { ...c, n: n }) }
    if (x.who == x.spender) refuse(s, "own_account")
    else if (x.up and bad) refuse(s, "expired")
    else if (x.up) accept(grant(a.n + x.amount))
    else if (a == NOTHING) refuse(s, "no_allowance")
    else if (x.amount >= a.n) accept({ ...s, allow: s.allow.set((x.who, x.spender), NOTHING) })
    else if (bad) refuse(s, "expired")
    else accept(grant(a.n - x.amount))
  }
  pure def taking(s: State, who: str, owner: str, n: int, after: State): Next = {
    val why = spendable(s, owner, who, n)
    if (why != "") refuse(s, why) else accept(after)
  }
  /// another token of the same code
  pure def another(s: State, x: { balances: List[{ who: str, amount: int }], cap: int, logo: str, name: int, symbol: str, decimals: int }): Next = {
    val total = x.balances.foldl(0, (n, b) => n + b.amount)
    val names = x.balances.foldl(Set(), (l, b) => l.union(Set(b.who)))
    if (x.name < 3 or x.name > 50 or not(Set("xASTRO", "abc", "x-ASTRO-long", "AZaz").contains(x.symbol)) or x.decimals > 18) refuse(s, "bad_token")
    else if (names.size() != x.balances.length()) refuse(s, "duplicate")
    else if (x.cap != NONE and total > x.cap) refuse(s, "cap")
    else if (not(Set("none", "url", "svg", "png", "fullpng").contains(x.logo))) refuse(s, "bad_logo")
    else accept(s)
  }
  pure def goodLogo(kind: str): bool = Set("url", "svg", "png", "fullpng").contains(kind)
  pure def told(was: str, now: str): str = if (now == "-") was else if (now == " ") "" else now
  pure val UNTOLD: Market = { on: false, project: "", description: "", boss: "", logo: "none" }
  pure def describe(s: State, x: { who: str, project: str, description: str, boss: str }): Next = {
    val m: Market = { ...s.market, project: told(s.market.project, x.project), description: told(s.market.description, x.description), boss: told(s.market.boss, x.boss) }
    if (not(s.market.on) or s.market.boss != x.who) refuse(s, "unauthorized")
    else if (x.boss == "u") refuse(s, "bad_address")
    // told nothing any more: gone
    else accept({ ...s, market: if (m == { ...UNTOLD, on: true }) UNTOLD else m })
  }
  pure val CONTRACT = "astroport-xastro-token"
  pure val RELEASES = ["1.0.0", "1.0.1", "1.0.2"]
  pure def exec(s: State, m: Msg): Next = match m {
    | Upgrade(x) => if (knows(x, CONTRACT, RELEASES)) accept(s) else refuse(s, "release")
    | Transfer(x) => if (x.amount == 0) refuse(s, "zero")
                     else if (s.bal.get(x.who) < x.amount) refuse(s, "insufficient_balance")
                     else accept(move(s, x.who, x.dest, x.amount))
    | Send(x) => if (x.amount == 0) refuse(s, "zero")
                 else if (s.bal.get(x.who) < x.amount) refuse(s, "insufficient_balance")
                 else if (not(x.accepts)) refuse(s, "receiver_refuses")
                 else accept(received(move(s, x.who, "sink", x.amount), x.who, x.amount))
    | Burn(x) => if (x.amount == 0) refuse(s, "zero")
                 else if (x.who != "minter" or not(s.minter)) refuse(s, "unauthorized")
                 else if (s.bal.get(x.who) < x.amount) refuse(s, "insufficient_balance")
                 else accept(resupply(write(s, x.who, s.bal.get(x.who) - x.amount), s.supply - x.amount))
    | Mint(x) => if (x.amount == 0) refuse(s, "zero")
                 else if (x.who != "minter" or not(s.minter)) refuse(s, "unauthorized")
                 else if (s.cap != NONE and s.supply + x.amount > s.cap) refuse(s, "cap")
                 else accept(resupply(write(s, x.dest, s.bal.get(x.dest) + x.amount), s.supply + x.amount))
    | Allow(x) => allowing(s, x)
    | TransferFrom(x) => taking(s, x.who, x.owner, x.amount, move(spend(s, x.owner, x.who, x.amount), x.owner, x.dest, x.amount))
    | BurnFrom(x) => if (x.who != "minter" or not(s.minter)) refuse(s, "unauthorized")
                     else taking(s, x.who, x.owner, x.amount,
                                 resupply(write(spend(s, x.owner, x.who, x.amount), x.owner, s.bal.get(x.owner) - x.amount), s.supply - x.amount))
    | SendFrom(x) => if (not(x.accepts)) refuse(s, "receiver_refuses")
                     else taking(s, x.who, x.owner, x.amount, received(move(spend(s, x.owner, x.who, x.amount), x.owner, "sink", x.amount), x.who, x.amount))
    | NewToken(x) => another(s, x)
    | Describe(x) => describe(s, x)
    | Logo(x) => if (not(s.market.on) or s.market.boss != x.who) refuse(s, "unauthorized")
                 else if (not(goodLogo(x.kind))) refuse(s, "bad_logo")
                 else accept({ ...s, market: { ...s.market, logo: x.kind } })
    | Wait(x) => accept({ ...s, now: s.now + x.seconds, h: s.h + 1 })
    | Created => accept(s)
  }

  pure val RANK = Map("" -> 0, "alice" -> 2, "alicia" -> 3, "bob" -> 4, "carol" -> 5, "sink" -> 6, "m00" -> 7, "minter" -> 8, "aaa" -> 1, "zed" -> 9)
  pure def look(s: State, u: str, h: int, o: str, sp: str, after: str, limit: int): Probe = {
    // in the order of the addresses: `sink` is "contract0"
    val have = ["alice", "bob", "carol", "sink", "minter"].select(a => s.known.get(a) and RANK.get(a) > RANK.get(after))
    { at: { user: u, h: h, balance: before(s.hist.get(u), h), supply: before(s.supplyHist, h + 1) },
      allow: { owner: o, spender: sp, a: s.allow.get((o, sp)) },
      page: { after: after, limit: limit, names: have.slice(0, min2(have.length(), if (limit == NONE) 10 else min2(limit, 30))) },
      spenders: {
        val mine = ["alice", "bob", "carol", "sink", "minter"].select(a => s.allow.get((o, a)) != NOTHING and RANK.get(a) > RANK.get(after))
        { owner: o, after: after, limit: limit, names: mine.slice(0, min2(mine.length(), if (limit == NONE) 10 else min2(limit, 30))) }
      },
      cap: if (s.minter) s.cap else NONE }
  }

  // ---- behaviours ---------------------------------------------------------------------------------------------

  action perform(m: Msg): bool = {
    nondet u_ = RND.oneOf()
    nondet t_ = RND.oneOf()
    nondet o_ = RND.oneOf()
    nondet l = Set(NONE, 0, 1, 2, 3, 31).oneOf()
    val r = exec(st, m)
    val u = pick(ALL, u_)
    val moments = r.s.hist.get(u).concat(r.s.supplyHist).foldl([r.s.h, r.s.h - 1, r.s.h + 1, 0, 1], (k, x) => k.append(x.t).append(x.t + 1).append(x.t - 1))
    all { st' = r.s, msg' = m, res' = r.why,
          probe' = look(r.s, u, max2(0, pick(moments, t_)), pick(ALL, o_), pick(ALL, o_ / 5), pick(["", "", "aaa", "alice", "alicia", "bob", "m00", "zed", "carol", "sink"], o_ / 16), l) }
  }
  action init = {
    nondet k_ = RND.oneOf()
    nondet j_ = RND.oneOf()
    val give = pick([[], [("alice", 1000000)], [("alice", 10^12), ("bob", 7)], [("minter", 10^20), ("carol", 0)]], k_)
    nondet l_ = RND.oneOf()
    val market = if (l_ % 4 == 0) UNTOLD else { on: true, project: pick(["", "p"], l_), description: pick(["d", "", "d"], l_), boss: pick(["alice", "bob", "alice", "", "alice"], l_),
                   logo: pick(["none", "url", "svg", "none", "fullpng"], l_ / 5) }
    val s0: State = { market: market, bal: ALL.foldl(Map(), (m, u) => m.put(u, 0)), known: ALL.foldl(Map(), (m, u) => m.put(u, false)), supply: 0,
                      hist: ALL.foldl(Map(), (m, u) => m.put(u, [])), supplyHist: [],
                      allow: tuples(Set("alice", "bob", "carol", "minter", "sink"), Set("alice", "bob", "carol", "minter", "sink")).mapBy(_ => NOTHING),
                      minter: j_ % 8 != 0, cap: if (j_ % 3 == 0) 10^21 else NONE, got: { by: "", amount: 0 }, now: 1600000000, h: 100 }
    val s1 = give.foldl(s0, (s, g) => write({ ...s, supply: s.supply + g._2 }, g._1, g._2))
    val s = if (s1.supply > 0) resupply(s1, s1.supply) else s1
    all { st' = s, msg' = Created, res' = "ok", probe' = look(s, "alice", 100, "alice", "bob", "", NONE) }
  }
  pure def amountOf(s: State, who: str, n_: int): int = {
    val have = s.bal.get(who)
    pick([have / 2, have / 3, have, 1, have + 1, 0, max2(0, have - 1), have / 10], n_)
  }
  pure def rich(s: State, k_: int): str = {
    val l = ALL.select(u => s.bal.get(u) > 1)
    if (l.length() == 0 or k_ % 20 == 0) pick(ALL, k_) else pick(l, k_)
  }
  action doTransfer = {
    nondet who_ = RND.oneOf()
    nondet dest = ALL.indices().oneOf()
    nondet n_ = RND.oneOf()
    perform(Transfer({ who: rich(st, who_), dest: ALL[dest], amount: amountOf(st, rich(st, who_), n_) }))
  }
  action doSend = {
    nondet who_ = RND.oneOf()
    nondet n_ = RND.oneOf()
    perform(Send({ who: rich(st, who_), amount: amountOf(st, rich(st, who_), n_), accepts: n_ % 6 != 0 }))
  }
  action doMint = {
    nondet w_ = RND.oneOf()
    nondet dest = ALL.indices().oneOf()
    nondet n_ = RND.oneOf()
    val room = if (st.cap == NONE) 10^20 else st.cap - st.supply
    perform(Mint({ who: if (w_ % 8 == 0) "alice" else "minter", dest: ALL[dest], amount: pick([1, 1000000, 10^12, 10^18 + 1, room, room + 1, 0, room / 2], n_) }))
  }
  action doBurn = {
    nondet w_ = RND.oneOf()
    nondet n_ = RND.oneOf()
    val who = if (w_ % 6 == 0) "alice" else "minter"
    perform(Burn({ who: who, amount: amountOf(st, who, n_) }))
  }
  action doAllow = {
    nondet who_ = RND.oneOf()
    nondet sp_ = RND.oneOf()
    nondet n_ = RND.oneOf()
    nondet e_ = RND.oneOf()
    val who = rich(st, who_)
    val spender = if (sp_ % 3 == 0) "minter" else pick(ALL, sp_ / 3)
    val a = st.allow.get((who, spender))
    val up = n_ % 5 < 3
    val kind = pick(["", "", "never", "height", "time"], e_)
    perform(Allow({ who: who, spender: spender, expires: kind,
                    amount: if (up) pick([10^6, 10^30, 1, 0, amountOf(st, who, n_ / 7)], n_) else pick([1, a.n, a.n / 2, a.n + 1, 0], n_),
                    at: if (kind == "height") st.h + pick([1, 5, 20, 0], e_ / 5) else if (kind == "time") st.now + pick([1, 5, 100, 0], e_ / 5) else 0, up: up }))
  }
  pure def allowed(s: State): List[{ o: str, w: str }] =
    ALL.foldl([], (l, o) => ALL.foldl(l, (k, w) => if (s.allow.get((o, w)) == NOTHING) k else k.append({ o: o, w: w })))
  pure def spendAmount(s: State, o: str, w: str, n_: int): int =
    pick([min2(s.bal.get(o), s.allow.get((o, w)).n), s.bal.get(o) / 2, s.allow.get((o, w)).n, s.allow.get((o, w)).n + 1, 1, s.bal.get(o) + 1, 0, min2(s.bal.get(o), s.allow.get((o, w)).n) / 2], n_)
  action doFrom = {
    nondet o_ = RND.oneOf()
    nondet n_ = RND.oneOf()
    nondet k_ = RND.oneOf()
    nondet dest = ALL.indices().oneOf()
    val l = allowed(st)
    val p = if (l.length() == 0 or o_ % 12 == 0) { o: pick(ALL, o_ / 12), w: pick(ALL, o_ / 48) } else pick(l, o_)
    val n = spendAmount(st, p.o, p.w, n_)
    if (k_ % 4 <= 1) perform(TransferFrom({ who: p.w, owner: p.o, dest: ALL[dest], amount: n }))
    else if (k_ % 4 == 2) perform(BurnFrom({ who: p.w, owner: p.o, amount: n }))
    else perform(SendFrom({ who: p.w, owner: p.o, amount: n, accepts: k_ / 4 % 5 != 0 }))
  }
  action doNew = {
    nondet b_ = RND.oneOf()
    nondet l_ = RND.oneOf()
    nondet k_ = RND.oneOf()
    val l = pick([[], [{ who: "alice", amount: 5 }, { who: "bob", amount: 7 }], [{ who: "alice", amount: 5 }, { who: "bob", amount: 7 }, { who: "alice", amount: 3 }], [{ who: "alice", amount: 12 }]], b_)
    perform(NewToken({ balances: l, cap: pick([NONE, 12, 11, 13], b_ / 4), logo: if (k_ % 3 == 0) pick(["none", "url", "svg", "png", "badsvg", "badpng", "bigsvg", "bigpng", "fullpng"], l_) else "none",
                       name: if (k_ % 3 == 1) pick([3, 50, 2, 51, 10], l_) else 6, symbol: if (k_ % 3 == 2) pick(["xASTRO", "abc", "x-ASTRO-long", "ab", "ASTRO2", "x-ASTRO-longer", "@ST", "x[A", "x`A", "a{b", "x_A", "AZaz"], l_) else "xASTRO", decimals: if (k_ % 5 == 0) pick([0, 18, 19], l_) else 6 }))
  }
  action doTell = {
    nondet w_ = RND.oneOf()
    nondet p_ = RND.oneOf()
    nondet d_ = RND.oneOf()
    nondet b_ = RND.oneOf()
    val who = if (w_ % 5 == 0 or st.market.boss == "") pick(USERS, w_ / 5) else st.market.boss
    if (w_ % 3 == 0) perform(Logo({ who: who, kind: pick(["url", "svg", "png", "badsvg", "badpng", "bigsvg", "bigpng", "fullpng"], p_) }))
    else perform(Describe({ who: who, project: pick(["-", "p", "p2", " ", "-", " "], p_), description: pick(["-", "d", "d2", " ", "-", " "], d_),
                            boss: pick(["-", "-", "-", "alice", "bob", "sink", "u", " "], b_) }))
  }
  action doWait = {
    nondet k_ = RND.oneOf()
    perform(Wait({ seconds: pick([0, 1, 5, 100], k_) }))
  }
  action go = any { doTransfer, doTransfer, doSend, doMint, doMint, doBurn, doAllow, doAllow, doFrom, doFrom, doFrom, doWait, doWait, if (st.h % 5 < 2) doNew else if (st.h % 5 == 2) doTell else doWait }
  action doUpgrade = {
    nondet k_ = RND.oneOf()
    perform(Upgrade(release(k_, CONTRACT, RELEASES)))
  }
  action upgrades = any { go, go, go, doUpgrade }

  // ---- properties ---------------------------------------------------------------------------------------------

  val backed = st.supply == ALL.foldl(0, (n, u) => n + st.bal.get(u))
  val bounded = ALL.foldl(true, (b, u) => b and st.bal.get(u) >= 0) and (st.cap == NONE or st.supply <= st.cap)
  val remembered = ALL.foldl(true, (b, u) => b and latest(st.hist.get(u)) == st.bal.get(u)) and latest(st.supplyHist) == st.supply
  val Safe = backed and bounded and remembered
}
