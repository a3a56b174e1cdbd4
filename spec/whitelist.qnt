// -*- mode: Bluespec; -*-
/// The whitelist proxy: its admins may do anything through it, and change who they are until it is frozen.
module whitelist {
  import math.* from "./math"

  type Msg =
      Execute({ who: str, msgs: List[str] })
    | Freeze({ who: str })
    | Admins({ who: str, admins: List[str] })
    | Create({ admins: List[str], mutable: bool })
    | Callback
    | Created
  type State = { admins: List[str], mutable: bool, sent: List[str] }

  var st: State
  var msg: Msg
  var res: str
  var probe: { who: str, can: bool }

  pure val PEOPLE = ["alice", "bob", "carol", "dave"]

  type Next = { s: State, why: str }
  pure def isAdmin(s: State, who: str): bool = s.admins.foldl(false, (b, a) => b or a == who)
  pure def refuse(s: State, why: str): Next = { s: { ...s, sent: [] }, why: why }
  pure def accept(s: State): Next = { s: { ...s, sent: [] }, why: "ok" }
  pure def bad(l: List[str]): bool = l.foldl(false, (b, a) => b or a == "bad")
  pure def exec(s: State, m: Msg): Next = match m {
    | Execute(x) => if (not(isAdmin(s, x.who))) refuse(s, "unauthorized") else { s: { ...s, sent: x.msgs }, why: "ok" }
    | Freeze(x) => if (not(isAdmin(s, x.who)) or not(s.mutable)) refuse(s, "unauthorized") else accept({ ...s, mutable: false })
    | Admins(x) =>
        if (not(isAdmin(s, x.who)) or not(s.mutable)) refuse(s, "unauthorized")
        else if (bad(x.admins)) refuse(s, "bad_address")
        else accept({ ...s, admins: x.admins })
    | Create(x) => if (bad(x.admins)) refuse(s, "bad_address") else accept(s)
    | Callback => accept(s)
    | Created => accept(s)
  }
  action perform(m: Msg): bool = {
    nondet w = PEOPLE.indices().oneOf()
    val r = exec(st, m)
    all { st' = r.s, msg' = m, res' = r.why, probe' = { who: PEOPLE[w], can: isAdmin(r.s, PEOPLE[w]) } }
  }
  action init = {
    nondet k_ = RND.oneOf()
    val s: State = { admins: pick([["alice"], ["alice", "bob"], []], if (k_ % 10 == 0) 2 else k_ % 2), mutable: k_ / 10 % 3 > 0, sent: [] }
    all { st' = s, msg' = Created, res' = "ok", probe' = { who: "alice", can: isAdmin(s, "alice") } }
  }
  pure def caller(s: State, k_: int): str = if (k_ % 3 == 0 or s.admins.length() == 0) pick(PEOPLE, k_ / 3) else pick(s.admins, k_ / 3)
  action doExecute = {
    nondet w_ = RND.oneOf()
    nondet k_ = RND.oneOf()
    perform(Execute({ who: caller(st, w_), msgs: pick([["send"], ["wasm", "send"], [], ["neutron"], ["wasm", "wasm", "neutron"], ["send", "neutron"]], k_) }))
  }
  action doAdmins = {
    nondet w_ = RND.oneOf()
    nondet k_ = RND.oneOf()
    nondet b_ = RND.oneOf()
    val l = pick([["alice", "bob"], ["bob"], ["alice"], ["carol", "dave", "alice"], ["alice", "alice"], [], ["dave"]], if (k_ % 4 == 0) k_ / 4 else k_ % 4)
    perform(Admins({ who: caller(st, w_), admins: if (b_ % 12 == 0) l.append("bad") else l }))
  }
  action doRare = {
    nondet w_ = RND.oneOf()
    nondet k_ = RND.oneOf()
    if (k_ % 6 == 0) perform(Freeze({ who: caller(st, w_) }))
    else if (k_ % 6 == 1) perform(Create({ admins: pick([["alice"], ["bad"], ["bob", "alice"]], w_), mutable: k_ % 4 > 1 }))
    else if (k_ % 6 == 2) perform(Callback)
    else perform(Freeze({ who: pick(PEOPLE.select(p => not(isAdmin(st, p))).append("eve"), w_) }))
  }
  action go = any { doExecute, doExecute, doAdmins, doAdmins, doRare }
  val Safe = true
}
