// -*- mode: Bluespec; -*-
/// The router: trades along a path of pools, all or nothing, with one minimum at the end.
/// Whatever the router holds of an asset goes along with the next trade that offers it.
module router {
  import math.* from "./math"
  import upgrades.* from "./upgrades"
  import curve.* from "./curve"
  import pools.priceGuard from "./pools"

  type Op = { o: int, a: int, kind: str }     // assets offered and asked; kind: "astro", or "native" (never supported)
  type Msg =
      Route({ who: str, i: int, n: int, extra: int, ops: List[Op], min: int, dest: str, spread: int })
    | Claimed({ who: str, sender: str, ops: List[Op], min: int, dest: str, spread: int })   // a forged cw20 notification
    | Single({ who: str, op: Op, dest: str })                                                // the router's own step, called by others
    | Give({ who: str, i: int, n: int, dest: str })
    | Close({ who: str, k: int })                                                            // the factory's owner removes a pair
    | Fee({ bps: int })
    | Upgrade(Release)
    | Created
  /// got: what the last trade delivered (NONE: nothing traded)
  type State = { bal: List[str -> int], live: List[bool], fee: int, got: int }
  type Probe = { ops: List[Op], n: int, sim: int, rev: int, data: int }

  var st: State
  var msg: Msg
  var res: str
  var probe: Probe

  pure val KINDS = ["native", "native", "cw20", "native", "cw20"]
  pure val PAIRS = [[0, 1], [1, 2], [2, 3], [0, 2], [3, 4]]
  pure val POOLS = ["p0", "p1", "p2", "p3", "p4"]
  pure val USERS = ["alice", "bob", "carol"]
  pure val ALL = Set("alice", "bob", "carol", "router", "p0", "p1", "p2", "p3", "p4")
  pure val DEFAULT_SLIPPAGE = 5 * 10^15
  pure val MAX_SLIPPAGE = 5 * 10^17
  pure val BIGGEST = U128 - 1               // Decimal::MAX: a price at which every trade is welcome
  pure val LONGEST = 50

  type Next = { s: State, why: str }
  pure def refuse(s: State, why: str): Next = { s: { ...s, got: NONE }, why: why }
  pure def accept(s: State): Next = { s: { ...s, got: NONE }, why: "ok" }
  pure def held(s: State, i: int, who: str): int = s.bal[i].get(who)
  pure def pay(s: State, i: int, payer: str, payee: str, n: int): State = {
    val b1 = s.bal[i].set(payer, s.bal[i].get(payer) - n)
    { ...s, bal: s.bal.replaceAt(i, b1.set(payee, b1.get(payee) + n)) }
  }
  /// the pair for two assets, -1 if there is none
  pure def pairOf(s: State, o: int, a: int): int =
    PAIRS.indices().fold(-1, (acc, k) => if (s.live[k] and Set(PAIRS[k][0], PAIRS[k][1]) == Set(o, a)) k else acc)

  pure def path(ops: List[Op]): str =
    if (ops.length() == 0) "no_operations"
    else if (ops.length() > LONGEST) "too_many_operations"
    else if (ops.indices().exists(k => ops[k].kind == "native")) "native_swap"
    else if (ops.indices().exists(k => ops[k].o == ops[k].a)) "doubling"
    else if (ops.indices().exists(k => k > 0 and ops[k - 1].a != ops[k].o)) "broken_path"
    else ""

  /// One trade of all the router holds.
  pure def hop(x: Next, op: Op, dest: str, spread: int, single: bool): Next = {
    val k = pairOf(x.s, op.o, op.a)
    val n = held(x.s, op.o, "router")
    if (x.why != "ok") x
    else if (k < 0) { s: x.s, why: "no_pair" }
    else if (n == 0) { s: x.s, why: "nothing_to_swap" }
    else {
      val q = quote(held(x.s, op.o, POOLS[k]), held(x.s, op.a, POOLS[k]), n, 0, bps(x.s.fee))
      if (not(q.ok)) { s: x.s, why: "no_quote" }
      else {
        val g = priceGuard(if (single) NONE else BIGGEST, spread, n, q.ret + q.fee, q.spread, DEFAULT_SLIPPAGE, MAX_SLIPPAGE)
        if (g != "") { s: x.s, why: g }
        else { s: pay(pay(x.s, op.o, "router", POOLS[k], n), op.a, POOLS[k], dest, q.ret), why: "ok" }
      }
    }
  }
  pure def trade(s: State, ops: List[Op], min: int, dest: str, spread: int): Next = {
    val bad = path(ops)
    if (bad != "") refuse(s, bad)
    else {
      val last = ops.length() - 1
      val target = ops[last].a
      val r = range(0, ops.length()).foldl({ s: s, why: "ok" }, (x, k) =>
        hop(x, ops[k], if (k == last) dest else "router", spread, ops.length() == 1))
      val got = held(r.s, target, dest) - held(s, target, dest)
      if (r.why != "ok") refuse(s, r.why)
      else if (got < 0) refuse(s, "negative")                // only when the router itself is paid
      else if (min != NONE and got < min) refuse(s, "minimum")
      else { s: { ...r.s, got: got }, why: "ok" }
    }
  }
  pure val CONTRACT = "astroport-router"
  pure val RELEASES = ["1.1.2", "1.2.0", "1.3.0"]
  pure def exec(s: State, m: Msg): Next = match m {
    | Upgrade(x) => if (knows(x, CONTRACT, RELEASES)) accept(s) else refuse(s, "release")
    | Route(x) =>
        if (held(s, x.i, x.who) < x.n or x.n == 0 or held(s, if (x.i == 3) 0 else 3, x.who) < x.extra) refuse(s, "insufficient_balance")
        else {
          val paid = pay(pay(s, x.i, x.who, "router", x.n), if (x.i == 3) 0 else 3, x.who, "router", x.extra)
          val r = trade(paid, x.ops, x.min, x.dest, x.spread)
          if (r.why == "ok") r else refuse(s, r.why)
        }
    | Claimed(x) => trade(s, x.ops, x.min, if (x.dest == "") x.sender else x.dest, x.spread)
    | Single(x) => refuse(s, "unauthorized")
    | Give(x) => if (held(s, x.i, x.who) < x.n or x.n == 0) refuse(s, "insufficient_balance") else accept(pay(s, x.i, x.who, x.dest, x.n))
    | Close(x) =>
        if (x.who != "owner") refuse(s, "unauthorized")
        else if (not(s.live[x.k])) refuse(s, "no_pair")
        else accept({ ...s, live: s.live.replaceAt(x.k, false) })
    | Fee(x) => accept({ ...s, fee: x.bps })
    | Created => accept(s)
  }

  /// Quotes along a path: each on the pools as they are.
  pure def simulate(s: State, ops: List[Op], n: int): int =
    if (path(ops) != "") NONE
    else ops.foldl(n, (x, op) => {
      val k = pairOf(s, op.o, op.a)
      if (x <= 0 or k < 0) NONE else quote(held(s, op.o, POOLS[k]), held(s, op.a, POOLS[k]), x, 0, bps(s.fee)).ret
    })
  pure def reverse(s: State, ops: List[Op], n: int): int =
    if (path(ops) != "") NONE
    else range(0, ops.length()).foldl(n, (x, j) => {
      val op = ops[ops.length() - 1 - j]
      val k = pairOf(s, op.o, op.a)
      if (x <= 0 or k < 0) NONE else reverseQuote(held(s, op.o, POOLS[k]), held(s, op.a, POOLS[k]), x, 0, bps(s.fee)).offer
    })
  /// the outcome is reported to whoever called the router itself
  pure def data(m: Msg, r: Next): int = match m {
    | Route(x) => if (r.why == "ok" and KINDS[x.i] == "native") r.s.got else NONE
    | Claimed(x) => if (r.why == "ok") r.s.got else NONE
    | _ => NONE
  }

  // ---- behaviours ---------------------------------------------------------------------------------------------

  pure val NEAR = [[1, 2], [0, 2], [1, 3, 0], [2, 4], [3]]
  /// a walk of n trades from asset i along the pairs
  pure def walk(i: int, n: int, k: int): List[Op] =
    range(0, max2(n, 1)).foldl({ l: [], c: i, k: k }, (w, j) => {
      val a = pick(NEAR[w.c], w.k)
      { l: if (j < n) w.l.append({ o: w.c, a: a, kind: "astro" }) else w.l, c: a, k: (w.k * 7 + 3) / 2 }
    }).l
  pure def spoil(ops: List[Op], k: int): List[Op] = {
    val n = ops.length()
    val j = if (n == 0) 0 else (k / 64) % n
    if (n == 0) ops
    else if (k % 64 == 0) ops.replaceAt(j, { ...ops[j], kind: "native" })
    else if (k % 64 == 1) ops.replaceAt(j, { ...ops[j], a: (ops[j].a + 1) % 5 })
    else if (k % 64 == 2) ops.replaceAt(j, { ...ops[j], a: ops[j].o })
    else if (k % 64 == 3) ops.replaceAt(j, { ...ops[j], o: (ops[j].o + 1) % 5 })
    else ops
  }
  pure def hops(k: int): int = pick([1, 1, 1, 2, 2, 2, 2, 3, 3, 4, 5, 6, 0, 1, 2, 3, 2, 1, 3, 4, 50, 51, 1, 2, 1, 2, 3, 3, 2, 1, 2, 3, 1, 2, 4], k)

  action perform(m: Msg): bool = {
    nondet i = Set(0, 1, 2, 3, 4).oneOf()
    nondet k_ = RND.oneOf()
    nondet w_ = RND.oneOf()
    nondet sp_ = RND.oneOf()
    nondet e = 0.to(12).oneOf()
    nondet f = 1.to(999).oneOf()
    val r = exec(st, m)
    val ops = spoil(walk(i, hops(k_), w_), sp_)
    val n = f * 10^e / 100
    all { st' = r.s, msg' = m, res' = r.why, probe' = { ops: ops, n: n, sim: simulate(r.s, ops, n), rev: reverse(r.s, ops, n), data: data(m, r) } }
  }

  action init = {
    nondet rich = 3.to(14).oneOf()
    nondet skew_ = RND.oneOf()
    nondet fee_ = RND.oneOf()
    // reserves of the pools: mostly on one scale, now and then very lopsided, or never filled
    val fill = range(0, 5).foldl([], (l, k) => l.append({
      a: (1000 + (skew_ * (k + 3)) % 997) * 10^rich / 100,
      b: (1000 + (skew_ * (k + 11)) % 991) * 10^rich / 100 * pick([1, 1, 1, 10, 1000, 1, 1], skew_ / (k + 1)) }))
    val empty = pick([-1, -1, -1, 0, 1, 2, 3, 4], fee_ / 7)
    val bal = range(0, 5).foldl([], (l, i) => l.append(ALL.mapBy(a =>
      if (USERS.indices().exists(u => USERS[u] == a)) 500 * 10^rich
      else if (a == "router") 0
      else {
        val k = POOLS.indices().fold(0, (acc, j) => if (POOLS[j] == a) j else acc)
        if (k == empty) 0 else if (PAIRS[k][0] == i) fill[k].a else if (PAIRS[k][1] == i) fill[k].b else 0
      })))
    val s: State = { bal: bal, live: [true, true, true, true, true], fee: pick([30, 30, 30, 0, 100, 30, 1000, 10000], fee_), got: NONE }
    all { st' = s, msg' = Created, res' = "ok", probe' = { ops: [], n: 1, sim: NONE, rev: NONE, data: NONE } }
  }

  action doRoute = {
    nondet who = USERS.indices().oneOf()
    nondet i = Set(0, 1, 2, 3, 4).oneOf()
    nondet e = 0.to(5).oneOf()
    nondet f = 1.to(990).oneOf()
    nondet len_ = RND.oneOf()
    nondet walk_ = RND.oneOf()
    nondet spoil_ = RND.oneOf()
    nondet min_ = RND.oneOf()
    nondet dest_ = RND.oneOf()
    nondet spread_ = RND.oneOf()
    nondet extra_ = RND.oneOf()
    nondet start_ = RND.oneOf()
    val n = st.bal[i].get(USERS[who]) * f / (1000 * 10^e)
    // the path mostly starts at the asset sent along
    val ops = spoil(walk(if (start_ % 16 == 0) (i + 1) % 5 else i, hops(len_), walk_), spoil_)
    val dest = pick([USERS[who], USERS[who], USERS[who], "alice", "bob", "carol", "router"], dest_)
    val spread = pick([5 * 10^17, 5 * 10^17, 5 * 10^17, NONE, 10^16, 5 * 10^17 + 1, 0], spread_)
    val extra = pick([0, 0, 0, 0, 0, 0, 0, 1, 1000], extra_)
    val sofar = Route({ who: USERS[who], i: i, n: n, extra: extra, ops: ops, min: NONE, dest: dest, spread: spread })
    val g = exec(st, sofar).s.got
    val min = pick([NONE, g, g + 1, max2(g - 1, 0), 1], min_)
    perform(Route({ who: USERS[who], i: i, n: n, extra: extra, ops: ops, min: min, dest: dest, spread: spread }))
  }
  action doClaimed = {
    nondet i = Set(0, 1, 2, 3, 4).oneOf()
    nondet len_ = RND.oneOf()
    nondet walk_ = RND.oneOf()
    nondet who_ = RND.oneOf()
    nondet dest_ = RND.oneOf()
    nondet min_ = RND.oneOf()
    perform(Claimed({ who: pick(USERS, who_), sender: pick(USERS, who_ / 3), ops: walk(i, hops(len_), walk_), min: pick([NONE, 0, 1, 10^20], min_),
                      dest: pick(["", "bob", "router"], dest_), spread: 5 * 10^17 }))
  }
  action doSingle = {
    nondet i = Set(0, 1, 2, 3, 4).oneOf()
    nondet walk_ = RND.oneOf()
    nondet who_ = RND.oneOf()
    perform(Single({ who: pick(USERS, who_), op: walk(i, 1, walk_)[0], dest: pick(USERS, who_ / 3) }))
  }
  action doGive = {
    nondet i = Set(0, 1, 2, 3, 4).oneOf()
    nondet e = 0.to(7).oneOf()
    nondet f = 0.to(990).oneOf()
    nondet who_ = RND.oneOf()
    nondet dest_ = RND.oneOf()
    val who = pick(USERS, who_)
    val n = st.bal[i].get(who) * f / (1000 * 10^e)
    // assets a pool does not trade are of no use to it: kept out
    val dest = pick(["router", "router", "router"].concat(POOLS.select(p => PAIRS.indices().exists(k => POOLS[k] == p and (PAIRS[k][0] == i or PAIRS[k][1] == i)))), dest_)
    perform(Give({ who: who, i: i, n: n, dest: dest }))
  }
  action doClose = {
    nondet k = Set(0, 1, 2, 3, 4).oneOf()
    nondet who_ = RND.oneOf()
    perform(Close({ who: pick(["owner", "alice"], who_), k: k }))
  }
  action doFee = {
    nondet b = Set(0, 1, 30, 100, 3000).oneOf()
    perform(Fee({ bps: b }))
  }
  action go = {
    nondet k_ = RND.oneOf()
    if (k_ % 100 < 66) doRoute
    else if (k_ % 100 < 77) doGive
    else if (k_ % 100 < 86) doClaimed
    else if (k_ % 100 < 92) doSingle
    else if (k_ % 100 < 98) doFee
    else doClose
  }
  action doUpgrade = {
    nondet k_ = RND.oneOf()
    perform(Upgrade(release(k_, CONTRACT, RELEASES)))
  }
  action upgrades = any { go, go, go, doUpgrade }
  action step = go

  // ---- what must hold -------------------------------------------------------------------------------------------

  pure def total(s: State, i: int): int = ALL.fold(0, (acc, a) => acc + s.bal[i].get(a))
  /// a trade that goes through pays at least its minimum, and leaves nothing it offered behind
  val Fair = match msg {
    | Route(x) => res == "ok" implies and { x.min == NONE or st.got >= x.min,
                    x.dest == "router" or x.ops.indices().forall(k => held(st, x.ops[k].o, "router") == 0) }
    | Claimed(x) => res == "ok" implies (x.min == NONE or st.got >= x.min)
    | _ => true
  }
  val Solvent = KINDS.indices().forall(i => ALL.forall(a => st.bal[i].get(a) >= 0))
  val Safe = Fair and Solvent
}
