// -*- mode: Bluespec; -*-
/// The fee granter: gas allowances for contracts, backed by coins paid in, run by an owner and at most two admins.
module granter {
  import math.* from "./math"
  import denoms.* from "./denoms"

  type Coins = { denom: str, amount: int }
  type Grant = { who: str, n: int }
  type Msg =
      Give({ who: str, grantee: str, amount: int, bypass: bool, coins: List[Coins] })
    | Revoke({ who: str, grantee: str })
    | Transfer({ who: str, amount: int, dest: str })
    | Admins({ who: str, add: List[str], remove: List[str] })
    | Handover({ who: str, next: str })
    | Another({ admins: List[str], coin: Denom })
    | Created
  type State = { owner: str, admins: Set[str], bal: str -> int, chain: str -> int }
  type Probe = { one: str, n: int, after: str, limit: int, page: List[Grant] }

  var st: State
  var msg: Msg
  var res: str
  var probe: Probe

  /// in byte order
  pure val GRANTEES = ["ka1x", "kb1x", "kc1x", "kd1x"]
  pure val PEOPLE = ["owner", "alice", "bob", "carol"]
  pure val HOLDERS = ["owner", "alice", "bob", "carol", "granter", "dave"]

  type Next = { s: State, why: str }
  pure def refuse(s: State, why: str): Next = { s: s, why: why }
  pure def accept(s: State): Next = { s: s, why: "ok" }
  pure def boss(s: State, who: str): bool = who == s.owner or s.admins.contains(who)
  pure def gas(coins: List[Coins]): int = if (coins.length() == 1 and coins[0].denom == "gas") coins[0].amount else 0
  pure def move(s: State, a: str, b: str, n: int): State = { val m = s.bal.set(a, s.bal.get(a) - n)
                                                            { ...s, bal: m.set(b, m.get(b) + n) } }
  pure def setOf(l: List[str]): Set[str] = l.foldl(Set(), (r, x) => r.union(Set(x)))
  pure def distinct(l: List[str]): bool = setOf(l).size() == l.length()
  pure def admins(now: Set[str], add: List[str], remove: List[str]): { who: Set[str], why: str } =
    if (setOf(add).union(setOf(remove)).contains("bad")) { who: now, why: "bad_address" }
    else if (not(distinct(add)) or setOf(add).intersect(now) != Set()) { who: now, why: "already_admin" }
    else if (now.union(setOf(add)).exclude(setOf(remove)).size() > 2) { who: now, why: "too_many" }
    else { who: now.union(setOf(add)).exclude(setOf(remove)), why: "ok" }
  pure def total(coins: List[Coins]): int = coins.foldl(0, (n, c) => if (c.denom == "gas") n + c.amount else n)
  pure def setAdmins(s: State, add: List[str], remove: List[str]): Next = {
    val a = admins(s.admins, add, remove)
    if (a.why != "ok") refuse(s, a.why) else accept({ ...s, admins: a.who })
  }
  pure def exec(s: State, m: Msg): Next = match m {
    | Give(x) =>
        if (total(x.coins) > s.bal.get(x.who)) refuse(s, "insufficient_balance")
        else if (x.grantee == "bad") refuse(s, "bad_address")
        else if (not(boss(s, x.who))) refuse(s, "unauthorized")
        else if (not(x.bypass) and (gas(x.coins) == 0 or gas(x.coins) != x.amount)) refuse(s, "wrong_amount")
        else if (s.chain.keys().contains(x.grantee)) refuse(s, "exists")
        else if (x.amount == 0) refuse(s, "chain_refuses_zero")
        else accept({ ...move(s, x.who, "granter", total(x.coins)), chain: s.chain.put(x.grantee, x.amount) })
    | Revoke(x) =>
        if (x.grantee == "bad") refuse(s, "bad_address")
        else if (not(boss(s, x.who))) refuse(s, "unauthorized")
        else if (not(s.chain.keys().contains(x.grantee))) refuse(s, "no_grant")
        else accept({ ...s, chain: s.chain.keys().exclude(Set(x.grantee)).mapBy(k => s.chain.get(k)) })
    | Transfer(x) =>
        if (x.amount == 0) refuse(s, "zero")
        else if (not(boss(s, x.who))) refuse(s, "unauthorized")
        else if (x.amount > s.bal.get("granter")) refuse(s, "insufficient_balance")
        else accept(move(s, "granter", if (x.dest == "") x.who else x.dest, x.amount))
    | Admins(x) => if (x.who != s.owner) refuse(s, "unauthorized") else setAdmins(s, x.add, x.remove)
    | Handover(x) => if (x.who != s.owner or x.next == x.who) refuse(s, "unauthorized") else accept({ ...s, owner: x.next })
    | Another(x) => if (not(wellFormed(x.coin))) refuse(s, "bad_denom") else { val a = admins(Set(), x.admins, [])
                                                                         { s: s, why: a.why } }
    | Created => accept(s)
  }
  pure def place(g: str): int = if (g == "ka1x") 0 else if (g == "kb1x") 1 else if (g == "kc1x") 2 else if (g == "kd1x") 3 else -1
  pure def look(s: State, one: str, after: str, limit: int): Probe = {
    val l = GRANTEES.select(g => s.chain.keys().contains(g) and place(g) > place(after))
    { one: one, n: at(s.chain, one), after: after, limit: limit,
      page: l.slice(0, if (limit == NONE) l.length() else min2(limit, l.length())).foldl([], (r, g) => r.append({ who: g, n: s.chain.get(g) })) }
  }
  action perform(m: Msg): bool = {
    nondet a_ = RND.oneOf()
    nondet b_ = RND.oneOf()
    val r = exec(st, m)
    all { st' = r.s, msg' = m, res' = r.why, probe' = look(r.s, pick(GRANTEES, a_), pick(["", "", "ka1x", "kb1x", "kc1x", "kd1x"], b_), pick([NONE, 1, 2, 0, 10], a_ / 4)) }
  }
  action init = {
    nondet k_ = RND.oneOf()
    val s: State = { owner: "owner", admins: pick([Set(), Set("alice"), Set("alice", "bob")], k_), bal: setOf(HOLDERS).mapBy(h => if (h == "granter" or h == "dave") 0 else 10^6), chain: Map() }
    all { st' = s, msg' = Created, res' = "ok", probe' = look(s, "ka1x", "", NONE) }
  }
  pure def caller(s: State, k_: int): str = if (k_ % 4 == 0) pick(PEOPLE, k_ / 4) else if (k_ % 4 == 1 and s.admins.size() > 0) pick(PEOPLE.select(p => s.admins.contains(p)), k_ / 4) else s.owner
  action doGive = {
    nondet w_ = RND.oneOf()
    nondet g_ = RND.oneOf()
    nondet n_ = RND.oneOf()
    nondet m_ = RND.oneOf()
    nondet b_ = RND.oneOf()
    val n = pick([100, 1, 5000, 777, 0, 999999], n_)
    val coins = if (n == 0) [] else [{ denom: "gas", amount: n }]
    perform(Give({ who: caller(st, w_), grantee: if (g_ % 25 == 0) "bad" else pick(GRANTEES, g_), amount: n, bypass: b_ % 4 == 0,
      coins: pick([coins, coins, coins, coins, coins, [], [{ denom: "gas", amount: n + 1 }], [{ denom: "other", amount: max2(1, n) }], [{ denom: "gas", amount: max2(1, n) }, { denom: "other", amount: 5 }], [{ denom: "gas", amount: 1 }]], m_) }))
  }
  action doRevoke = {
    nondet w_ = RND.oneOf()
    nondet g_ = RND.oneOf()
    val have = GRANTEES.select(g => st.chain.keys().contains(g))
    perform(Revoke({ who: caller(st, w_), grantee: if (g_ % 25 == 0) "bad" else if (g_ % 4 > 0 and have.length() > 0) pick(have, g_ / 4) else pick(GRANTEES, g_ / 4) }))
  }
  action doTransfer = {
    nondet w_ = RND.oneOf()
    nondet n_ = RND.oneOf()
    nondet d_ = RND.oneOf()
    val have = st.bal.get("granter")
    perform(Transfer({ who: caller(st, w_), amount: pick([have / 2, have, 1, have + 1, 0, 100], n_), dest: pick(["", "", "dave", "carol", "granter"], d_) }))
  }
  action doAdmins = {
    nondet w_ = RND.oneOf()
    nondet a_ = RND.oneOf()
    nondet r_ = RND.oneOf()
    nondet k_ = RND.oneOf()
    val p = pick(PEOPLE, a_)
    val q = pick(["carol", "bob", "alice", "bad", "owner"], r_)
    perform(Admins({ who: if (w_ % 4 == 0) caller(st, w_ / 4) else st.owner, add: pick([[], [p], [p], [p, q], [p, p]], k_), remove: pick([[], [q], [p], [pick(PEOPLE, a_ / 4)], [p, q]], k_ / 5) }))
  }
  action doRare = {
    nondet w_ = RND.oneOf()
    nondet a_ = RND.oneOf()
    nondet n_ = RND.oneOf()
    if (w_ % 3 > 0) perform(Handover({ who: caller(st, w_ / 3), next: pick(PEOPLE, n_) }))
    else perform(Another({ admins: pick([[], ["alice"], ["alice", "bob"], ["alice", "alice"], ["alice", "bob", "carol"], ["bad"]], n_), coin: denomOf(w_ / 3, a_) }))
  }
  action go = any { doGive, doGive, doGive, doGive, doRevoke, doRevoke, doTransfer, doAdmins, doAdmins, doRare }
  val Safe = and { st.admins.size() <= 2, HOLDERS.foldl(0, (n, h) => n + st.bal.get(h)) == 4 * 10^6 }
}
