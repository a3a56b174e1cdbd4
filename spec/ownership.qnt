// -*- mode: Bluespec; -*-
/// Ownership of every contract that has it: proposed by the owner, claimed by the proposed one in time.
/// A pool without an owner of its own belongs to the factory's owner.
module ownership {
  import math.* from "./math"

  type Msg =
      Propose({ who: str, next: str, expires: int })
    | Drop({ who: str })
    | Claim({ who: str })
    | Use({ who: str })            // something only the owner may do
    | Factory({ next: str })       // the factory is handed over (for pools)
    | Wait({ seconds: int })
    | Created
  type State = { kind: str, own: str, factory: str, next: str, until: int, now: int }

  var st: State
  var msg: Msg
  var res: str
  var probe: { owner: str }

  /// with "@": a pool created without an owner
  pure val KINDS = ["factory", "incentives", "maker", "vesting", "registry", "granter", "stable", "stable@", "pcl@"]
  pure val PEOPLE = ["owner", "alice", "bob", "carol"]
  pure val LONGEST = 1209600

  type Next = { s: State, why: str }
  pure def refuse(s: State, why: str): Next = { s: s, why: why }
  pure def accept(s: State): Next = { s: s, why: "ok" }
  pure def owner(s: State): str = if (s.own == "") s.factory else s.own

  pure def exec(s: State, m: Msg): Next = match m {
    | Propose(x) =>
        if (x.who != owner(s)) refuse(s, "unauthorized")
        else if (x.next == "bad") refuse(s, "bad_address")
        else if (x.next == owner(s)) refuse(s, "same_owner")
        else if (x.expires > LONGEST) refuse(s, "too_long")
        else accept({ ...s, next: x.next, until: s.now + x.expires })
    | Drop(x) => if (x.who != owner(s)) refuse(s, "unauthorized") else accept({ ...s, next: "" })
    | Claim(x) =>
        if (s.next == "") refuse(s, "no_proposal")
        else if (x.who != s.next) refuse(s, "unauthorized")
        else if (s.now > s.until) refuse(s, "expired")
        else accept({ ...s, own: x.who, next: "" })
    | Use(x) => if (x.who != owner(s)) refuse(s, "unauthorized") else accept(s)
    | Factory(x) => if (x.next == s.factory) refuse(s, "same_owner") else accept({ ...s, factory: x.next })
    | Wait(x) => accept({ ...s, now: s.now + x.seconds })
    | Created => accept(s)
  }
  action perform(m: Msg): bool = {
    val r = exec(st, m)
    all { st' = r.s, msg' = m, res' = r.why, probe' = { owner: owner(r.s) } }
  }
  action init = {
    nondet k = KINDS.indices().oneOf()
    val s: State = { kind: KINDS[k], own: if (Set("stable@", "pcl@").contains(KINDS[k])) "" else "owner", factory: if (KINDS[k] == "stable") "carol" else "owner",
                     next: "", until: 0, now: 1700000000 }
    all { st' = s, msg' = Created, res' = "ok", probe' = { owner: owner(s) } }
  }
  pure def ownerMostly(s: State, k_: int): str = if (k_ % 4 == 0) pick(PEOPLE, k_ / 4) else owner(s)
  action doPropose = {
    nondet w_ = RND.oneOf()
    nondet n_ = RND.oneOf()
    nondet e_ = RND.oneOf()
    perform(Propose({ who: ownerMostly(st, w_), next: if (n_ % 15 == 0) "bad" else pick(PEOPLE, n_), expires: pick([LONGEST, 100, 100, 1000, 100, 0, LONGEST + 1, 2 * LONGEST], e_) }))
  }
  action doDrop = {
    nondet w_ = RND.oneOf()
    perform(Drop({ who: ownerMostly(st, w_) }))
  }
  action doClaim = {
    nondet w_ = RND.oneOf()
    perform(Claim({ who: if (w_ % 3 == 0 or st.next == "") pick(PEOPLE, w_ / 3) else st.next }))
  }
  action doUse = {
    nondet w_ = RND.oneOf()
    perform(Use({ who: if (w_ % 2 == 0) pick(PEOPLE, w_ / 2) else owner(st) }))
  }
  action doFactory = {
    nondet w_ = RND.oneOf()
    if (Set("stable", "stable@", "pcl@").contains(st.kind)) perform(Factory({ next: pick(PEOPLE, w_) }))
    else perform(Use({ who: pick(PEOPLE, w_) }))
  }
  action doWait = {
    nondet k_ = RND.oneOf()
    val left = max2(0, st.until - st.now)
    perform(Wait({ seconds: pick([left, left + 1, 1, 50, 100, max2(0, left - 1), 5], k_) }))
  }
  action go = any { doPropose, doPropose, doPropose, doClaim, doClaim, doClaim, doUse, doUse, doUse, doDrop, doFactory, doWait }

  /// nobody becomes owner who was not proposed: kept by construction of exec, checked on every state the spec reaches
  val Safe = and {
    owner(st) != "",
    st.next != "" implies st.until <= st.now + LONGEST,
    match msg { | Claim(x) => res == "ok" implies owner(st) == x.who | _ => true }
  }
}
