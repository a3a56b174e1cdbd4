// -*- mode: Bluespec; -*-
/// The vesting contract: schedules funded by the owner, released linearly, claimed by their beneficiaries.
module vesting {
  import math.* from "./math"

  /// from `start` the amount `first` is free; with `end` != NONE it grows linearly to `total` at `end`
  type Schedule = { start: int, first: int, end: int, total: int }
  type Account = { on: bool, schedules: List[Schedule], released: int }
  type Msg =
      Register({ who: str, accounts: List[{ who: str, schedules: List[Schedule] }], funds: str, amount: int })
    | Spoof({ who: str, schedules: List[Schedule] })          // Receive, called by somebody who is not the token
    | Claim({ who: str, amount: int, to: str })
    | Reclaim({ who: str, account: str, amount: int, to: str })
    | Wait({ seconds: int })
    | Created

  type State = { cw20: bool, accounts: str -> Account, bal: str -> int, now: int }
  type Probe = { user: str, available: { ok: bool, n: int }, page: { after: str, limit: int, desc: bool, names: List[str] } }

  var st: State
  var msg: Msg
  var res: str
  var probe: Probe

  pure val USERS = ["alice", "bob", "carol"]
  pure val HOLDERS = Set("owner", "alice", "bob", "carol", "dave", "vest")
  pure val LIMIT = 8
  pure val NOBODY: Account = { on: false, schedules: [], released: 0 }

  pure def unlocked(c: Schedule, now: int): int =
    if (c.start > now) 0
    else if (c.end == NONE) c.first
    else c.first + (min2(now, c.end) - c.start) * (c.total - c.first) / (c.end - c.start)
  pure def amountOf(c: Schedule): int = if (c.end == NONE) c.first else c.total
  pure def available(a: Account, now: int): int = a.schedules.foldl(0, (n, c) => n + unlocked(c, now)) - a.released
  pure def granted(a: Account): int = a.schedules.foldl(0, (n, c) => n + amountOf(c))
  pure def fine(c: Schedule, now: int): bool = c.end == NONE or (c.start < c.end and c.end > now and c.first < c.total)
  pure def active(c: Schedule, now: int): bool = c.end != NONE and c.start <= now and now < c.end

  pure def move(s: State, payer: str, payee: str, n: int): State = {
    val b = s.bal.set(payer, s.bal.get(payer) - n)
    { ...s, bal: b.set(payee, b.get(payee) + n) }
  }
  type Next = { s: State, why: str }
  pure def refuse(s: State, why: str): Next = { s: s, why: why }
  pure def accept(s: State): Next = { s: s, why: "ok" }

  pure def register(s: State, m: { who: str, accounts: List[{ who: str, schedules: List[Schedule] }], funds: str, amount: int }): Next = {
    val due = m.accounts.foldl(0, (n, a) => a.schedules.foldl(n, (k, c) => k + amountOf(c)))
    val r = m.accounts.foldl({ s: s, why: "" }, (acc, x) => {
      val old = acc.s.accounts.get(x.who)
      if (acc.why != "") acc
      else if (x.schedules.select(c => not(fine(c, s.now))).length() > 0) { ...acc, why: "bad_schedule" }
      else if (old.on and old.schedules.length() + 1 > LIMIT) { ...acc, why: "too_many" }
      else { ...acc, s: { ...acc.s, accounts: acc.s.accounts.set(x.who, { on: true, schedules: x.schedules.concat(old.schedules), released: old.released }) } }
    })
    if (m.who != "owner") refuse(s, "unauthorized")
    else if (m.funds == "foreign") refuse(s, "wrong_coin")
    else if (m.funds == "two") refuse(s, "wrong_coin")
    else if (m.amount > s.bal.get("owner")) refuse(s, "insufficient_balance")
    else if (m.amount == 0 and not(s.cw20)) refuse(s, "no_funds")
    else if (r.why != "") refuse(s, r.why)
    else if (due != m.amount) refuse(s, "amount_mismatch")
    else accept(move(r.s, m.who, "vest", due))
  }
  pure def claim(s: State, m: { who: str, amount: int, to: str }): Next = {
    val a = s.accounts.get(m.who)
    val free = available(a, s.now)
    val n = if (m.amount == NONE) free else m.amount
    if (not(a.on)) refuse(s, "no_account")
    else if (n > free) refuse(s, "not_available")
    else accept(move({ ...s, accounts: s.accounts.set(m.who, { ...a, released: a.released + n }) }, "vest", m.to, n))
  }
  /// The owner takes back part of what the only running schedule has not released
  pure def reclaim(s: State, m: { who: str, account: str, amount: int, to: str }): Next = {
    val a = s.accounts.get(m.account)
    val running = a.schedules.select(c => active(c, s.now))
    if (m.amount == 0) refuse(s, "zero")
    else if (m.who != "owner") refuse(s, "unauthorized")
    else if (not(a.on)) refuse(s, "no_account")
    else if (running.length() == 0) refuse(s, "none_active")
    else if (running.length() > 1) refuse(s, "several_active")
    else {
      val c = running[0]
      val free = unlocked(c, s.now)
      if (m.amount >= c.total - free) refuse(s, "not_enough")
      else {
        val c2 = { start: s.now, first: free, end: c.end, total: c.total - m.amount }
        val l = a.schedules.foldl([], (acc, x) => acc.append(if (active(x, s.now)) c2 else x))
        accept(move({ ...s, accounts: s.accounts.set(m.account, { ...a, schedules: l }) }, "vest", m.to, m.amount))
      }
    }
  }
  pure def exec(s: State, m: Msg): Next = match m {
    | Register(x) => register(s, x)
    | Spoof(_) => refuse(s, "unauthorized")
    | Claim(x) => claim(s, x)
    | Reclaim(x) => reclaim(s, x)
    | Wait(w) => accept({ ...s, now: s.now + w.seconds })
    | Created => accept(s)
  }
  pure def look(s: State, user: str, after_: int, limit: int, desc: bool): Probe = {
    val a = s.accounts.get(user)
    val after = pick(["", "", "alice", "bob", "carol", "aaa", "bza"], after_)
    val rankOf = Map("" -> 0, "aaa" -> 1, "alice" -> 2, "bob" -> 4, "bza" -> 5, "carol" -> 6)
    val have = USERS.select(u => s.accounts.get(u).on)
    val seen = if (after == "") have
               else if (desc) have.select(u => rankOf.get(u) < rankOf.get(after))
               else have.select(u => rankOf.get(u) > rankOf.get(after))
    val ordered = if (desc) seen.foldl([], (l, u) => [u].concat(l)) else seen
    val n = if (limit == NONE) 10 else min2(limit, 30)
    { user: user, available: if (a.on) { ok: true, n: available(a, s.now) } else { ok: false, n: 0 },
      page: { after: after, limit: limit, desc: desc, names: ordered.slice(0, min2(n, ordered.length())) } }
  }

  // ---- behaviours ---------------------------------------------------------------------------------------------

  action perform(m: Msg): bool = {
    nondet u_ = RND.oneOf()
    nondet a_ = RND.oneOf()
    nondet l = Set(NONE, 0, 1, 2, 31).oneOf()
    nondet d = Set(true, false).oneOf()
    val r = exec(st, m)
    all { st' = r.s, msg' = m, res' = r.why, probe' = look(r.s, pick(USERS, u_), a_, l, d) }
  }
  action init = {
    nondet cw20 = Set(true, false).oneOf()
    val s: State = { cw20: cw20, accounts: Set("alice", "bob", "carol", "owner").mapBy(_ => NOBODY),
                     bal: HOLDERS.mapBy(h => if (h == "owner") 10^30 else 0), now: 1600000000 }
    all { st' = s, msg' = Created, res' = "ok", probe' = look(s, "alice", 0, NONE, true) }
  }
  pure def scheduleOf(now: int, a_: int, b_: int, n_: int): Schedule = {
    val start = now + pick([0, 0, -1000, -86400, 1, 100, 86400, 5000000], a_)
    val len = pick([100000, 1, 604800, 31536000, 86400 * 90, 1000, 86400 * 7, 2592000, 7777777, 31536001, 0], b_)
    val total = pick([1, 10, 999983, 1000000007, 10^12 + 39, 10^15, 10^24 + 7, 10^26], n_)
    val first = pick([0, 0, 0, 1, total / 3, total - 1, total], n_ / 9)
    if (b_ % 7 == 0) { start: start, first: total, end: NONE, total: total } else { start: start, first: first, end: start + len, total: total }
  }
  action doRegister = {
    nondet a1 = RND.oneOf()
    nondet b1 = RND.oneOf()
    nondet n1 = RND.oneOf()
    nondet a2 = RND.oneOf()
    nondet b2 = RND.oneOf()
    nondet n2 = RND.oneOf()
    nondet k_ = RND.oneOf()
    nondet w_ = RND.oneOf()
    nondet f_ = RND.oneOf()
    val c1 = scheduleOf(st.now, a1, b1, n1)
    val c2 = scheduleOf(st.now, a2, b2, n2)
    val u = pick(USERS, w_)
    val v = pick(USERS, w_ / 3)
    val l = pick([[{ who: u, schedules: [c1] }], [{ who: u, schedules: [c1, c2] }], [{ who: u, schedules: [c1] }, { who: v, schedules: [c2] }],
                  [{ who: u, schedules: [c1] }], [{ who: u, schedules: [c1] }], [],
                  // more of them than one account may gather in several steps
                  if (n2 % 3 == 0) [{ who: u, schedules: range(0, 7 + n1 % 5).foldl([], (m, i) => m.append(c1)).append(c2) }] else [{ who: u, schedules: [c2] }]], k_)
    val due = l.foldl(0, (n, a) => a.schedules.foldl(n, (k, c) => k + amountOf(c)))
    val funds = if (f_ % 20 == 0) pick(["foreign", "two"], f_ / 20) else "token"
    perform(Register({ who: if (f_ % 17 == 0) "alice" else "owner", accounts: l, funds: funds,
                       amount: if (f_ % 13 == 0) due + 1 else if (f_ % 13 == 1) max2(0, due - 1) else due }))
  }
  action doClaim = {
    nondet w_ = RND.oneOf()
    nondet k_ = RND.oneOf()
    nondet t_ = RND.oneOf()
    val have = USERS.select(u => st.accounts.get(u).on)
    val who = if (have.length() == 0 or w_ % 20 == 0) pick(USERS, w_) else pick(have, w_)
    val free = available(st.accounts.get(who), st.now)
    val n = pick([NONE, NONE, free / 2, free, free + 1, 1, 0], k_)
    perform(Claim({ who: who, amount: n, to: if (t_ % 4 == 0) "dave" else who }))
  }
  action doReclaim = {
    nondet w_ = RND.oneOf()
    nondet k_ = RND.oneOf()
    nondet t_ = RND.oneOf()
    val have = USERS.select(u => st.accounts.get(u).on and st.accounts.get(u).schedules.select(c => active(c, st.now)).length() == 1)
    val who = if (have.length() == 0 or w_ % 19 == 0) pick(USERS, w_) else pick(have, w_)
    val left = st.accounts.get(who).schedules.select(c => active(c, st.now)).foldl(0, (n, c) => n + c.total - unlocked(c, st.now))
    perform(Reclaim({ who: if (k_ % 17 == 0) "alice" else "owner", account: who, amount: max2(0, pick([left / 2, left - 1, left, left / 1000 + 1, 1, left / 3, 0, left + 1], k_)), to: if (t_ % 2 == 0) "owner" else "dave" }))
  }
  action doSpoof = {
    nondet a = RND.oneOf()
    nondet n = RND.oneOf()
    perform(Spoof({ who: if (a % 2 == 0) "alice" else "owner", schedules: [{ start: st.now, first: n + 1, end: NONE, total: n + 1 }] }))
  }
  action doWait = {
    nondet k_ = RND.oneOf()
    nondet j_ = RND.oneOf()
    val edges = USERS.foldl([], (l, u) => st.accounts.get(u).schedules.foldl(l, (m, c) => m.append(c.start).append(max2(c.end, c.start)))).select(t => t > st.now)
    val toEdge = if (edges.length() == 0) 1 else pick(edges, j_) - st.now
    perform(Wait({ seconds: max2(1, pick([1, 60, 3600, 86400, toEdge, toEdge - 1, toEdge + 1, toEdge / 2, toEdge / 7, toEdge / 2, 12], k_)) }))
  }
  pure def running(s: State): List[str] =
    USERS.select(u => s.accounts.get(u).schedules.select(c => active(c, s.now)).length() == 1)
  action more = if (running(st).length() > 0) any { doReclaim, doClaim, doWait, doRegister } else any { doRegister, doRegister, doRegister, doReclaim }
  action go = if (USERS.select(u => st.accounts.get(u).on).length() == 0) any { doRegister, doRegister, doRegister, doClaim, doWait, doSpoof }
              else any { doRegister, doClaim, doClaim, doWait, doWait, more, more, if (st.now % 5 == 0) doSpoof else doClaim }

  // ---- properties ---------------------------------------------------------------------------------------------

  /// what was funded and neither released nor taken back is exactly what the contract holds
  val backed = st.bal.get("vest") == USERS.foldl(0, (n, u) => n + granted(st.accounts.get(u)) - st.accounts.get(u).released)
  val neverAhead = USERS.foldl(true, (b, u) => b and available(st.accounts.get(u), st.now) >= 0)
  val nonNegative = HOLDERS.forall(h => st.bal.get(h) >= 0)
  val Safe = backed and neverAhead and nonNegative
}
