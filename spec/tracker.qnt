// -*- mode: Bluespec; -*-
/// The token-factory tracker: a bank hook remembering balances and supply by block or by second.
module tracker {
  import math.* from "./math"
  import snapshots.* from "./snapshots"
  import denoms.* from "./denoms"

  type Msg =
      Mint({ who: str, dest: str, amount: int })
    | Burn({ who: str, amount: int })
    | Send({ who: str, dest: str, amount: int })
    | Other({ who: str, dest: str, amount: int })                    // a coin that is not tracked
    | Hook({ kind: str, denom: str, who: str, dest: str, amount: int })   // the hook alone, as the chain would call it
    | Create({ coin: Denom, tf: str })                            // a tracker for something else
    | Migrate
    | Wait({ seconds: int })
    | Created
  /// release 1 of the contract counts seconds and can be migrated to release 2
  type State = { release: int, seconds: bool, bal: str -> int, supply: int, hist: str -> List[Mark], supplyHist: List[Mark], now: int, h: int }
  type Probe = { user: str, t: int, balance: int, supply: int }

  var st: State
  var msg: Msg
  var res: str
  var probe: Probe

  pure val ALL = ["alice", "bob", "carol", "admin"]

  type Next = { s: State, why: str }
  pure def refuse(s: State, why: str): Next = { s: s, why: why }
  pure def accept(s: State): Next = { s: s, why: "ok" }
  pure def unit(s: State): int = if (s.seconds) s.now else s.h

  pure def note(s: State, who: str): State = { ...s, hist: s.hist.set(who, stamp(s.hist.get(who), unit(s), s.bal.get(who))) }
  /// the hook runs before the coins move, so a burn is only seen in the supply by the next movement
  pure def seen(s: State, n: int): State = { ...s, supplyHist: stamp(s.supplyHist, unit(s), n) }
  pure def change(s: State, who: str, n: int): State = { ...s, bal: s.bal.set(who, s.bal.get(who) + n) }

  pure def exec(s: State, m: Msg): Next = match m {
    | Mint(x) => if (x.who != "admin") refuse(s, "not_admin") else if (x.amount == 0) refuse(s, "zero")
                 else accept(seen(note(change({ ...s, supply: s.supply + x.amount }, x.dest, x.amount), x.dest), s.supply + x.amount))
    | Burn(x) => if (x.who != "admin") refuse(s, "not_admin") else if (x.amount == 0) refuse(s, "zero")
                 else if (s.bal.get(x.who) < x.amount) refuse(s, "insufficient_balance")
                 else accept(seen(note(change({ ...s, supply: s.supply - x.amount }, x.who, -x.amount), x.who), s.supply))
    | Send(x) => if (x.amount == 0) refuse(s, "zero")
                 else if (s.bal.get(x.who) < x.amount) refuse(s, "insufficient_balance")
                 else if (x.who == x.dest) accept(seen(s, s.supply))
                 else accept(seen(note(note(change(change(s, x.who, -x.amount), x.dest, x.amount), x.who), x.dest), s.supply))
    | Other(x) => if (x.amount == 0) refuse(s, "zero") else accept(s)
    | Hook(x) => if (x.kind == "track") accept(s)
                 else if (x.denom != "tracked") refuse(s, "wrong_denom")
                 else if (s.bal.get(x.who) < x.amount) refuse(s, "insufficient_balance")
                 // (only with nothing at stake: the chain always moves the coins afterwards)
                 else accept(seen(if (x.who == x.dest) s else note(note(s, x.who), x.dest), s.supply))
    | Create(x) => if (x.tf == "bad" or not(wellFormed(x.coin))) refuse(s, "invalid") else accept(s)
    | Migrate => if (s.release == 1) accept({ ...s, release: 2, seconds: true }) else refuse(s, "unsupported_version")
    | Wait(x) => accept({ ...s, now: s.now + x.seconds, h: s.h + 1 })
    | Created => accept(s)
  }
  pure def look(s: State, u: str, t: int): Probe =
    { user: u, t: t, balance: if (t == NONE) latest(s.hist.get(u)) else valueAt(s.hist.get(u), t, unit(s)),
      supply: if (t == NONE) latest(s.supplyHist) else valueAt(s.supplyHist, t, unit(s)) }

  // ---- behaviours ---------------------------------------------------------------------------------------------

  action perform(m: Msg): bool = {
    nondet u_ = RND.oneOf()
    nondet t_ = RND.oneOf()
    val r = exec(st, m)
    val u = pick(ALL, u_)
    val moments = r.s.hist.get(u).concat(r.s.supplyHist).foldl([unit(r.s), unit(r.s) - 1, unit(r.s) + 1, 0, NONE], (k, x) => k.append(x.t).append(x.t + 1).append(x.t - 1))
    all { st' = r.s, msg' = m, res' = r.why, probe' = look(r.s, u, pick(moments, t_)) }
  }
  action init = {
    nondet k_ = RND.oneOf()
    val s: State = { release: if (k_ % 4 == 0) 1 else 2, seconds: k_ % 4 < 2, bal: ALL.foldl(Map(), (m, u) => m.put(u, 0)), supply: 0,
                     hist: ALL.foldl(Map(), (m, u) => m.put(u, [])), supplyHist: [], now: 1600000000, h: 100 }
    all { st' = s, msg' = Created, res' = "ok", probe' = look(s, "alice", 50) }
  }
  pure def rich(s: State, k_: int): str = {
    val l = ALL.select(u => s.bal.get(u) > 1)
    if (l.length() == 0 or k_ % 20 == 0) pick(ALL, k_) else pick(l, k_)
  }
  pure def amountOf(s: State, who: str, n_: int): int = {
    val have = s.bal.get(who)
    pick([have / 2, have / 3, have, 1, have + 1, 0, max2(0, have - 1), have / 10], n_)
  }
  action doMint = {
    nondet w_ = RND.oneOf()
    nondet dest = ALL.indices().oneOf()
    nondet n_ = RND.oneOf()
    perform(Mint({ who: if (w_ % 12 == 0) "alice" else "admin", dest: if (w_ % 3 == 0) "admin" else ALL[dest], amount: pick([1, 1000000, 10^12, 10^18 + 1, 0, 777], n_) }))
  }
  action doBurn = {
    nondet w_ = RND.oneOf()
    nondet n_ = RND.oneOf()
    perform(Burn({ who: if (w_ % 12 == 0) "alice" else "admin", amount: amountOf(st, "admin", n_) }))
  }
  action doSend = {
    nondet w_ = RND.oneOf()
    nondet dest = ALL.indices().oneOf()
    nondet n_ = RND.oneOf()
    perform(Send({ who: rich(st, w_), dest: ALL[dest], amount: amountOf(st, rich(st, w_), n_) }))
  }
  action doRare = {
    nondet k_ = RND.oneOf()
    nondet n_ = RND.oneOf()
    nondet w_ = RND.oneOf()
    nondet d_ = RND.oneOf()
    if (k_ % 6 == 0) perform(Other({ who: "alice", dest: "bob", amount: 1 + n_ }))
    else if (k_ % 6 == 1) perform(Hook({ kind: "block", denom: "other", who: pick(ALL, w_), dest: pick(ALL, d_), amount: 0 }))
    else if (k_ % 6 == 2) perform(Hook({ kind: "track", denom: pick(["other", "tracked"], n_), who: pick(ALL, w_), dest: pick(ALL, d_), amount: n_ }))
    else if (k_ % 6 == 3) perform(Hook({ kind: "block", denom: "tracked", who: pick(ALL, w_), dest: pick(ALL, d_), amount: 0 }))
    else if (k_ % 6 == 4) perform(Create({ coin: denomOf(d_, n_), tf: pick(["good", "good", "good", "bad"], w_) }))
    else perform(Migrate)
  }
  action doWait = {
    nondet k_ = RND.oneOf()
    perform(Wait({ seconds: pick([0, 0, 1, 5, 100], k_) }))
  }
  action go = any { doMint, doMint, doBurn, doBurn, doSend, doSend, doSend, doSend, doWait, doWait, doRare }

  // ---- properties ---------------------------------------------------------------------------------------------

  val backed = st.supply == ALL.foldl(0, (n, u) => n + st.bal.get(u))
  val remembered = ALL.foldl(true, (b, u) => b and latest(st.hist.get(u)) == st.bal.get(u))
  val Safe = backed and remembered
}
