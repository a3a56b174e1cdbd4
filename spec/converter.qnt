// -*- mode: Bluespec; -*-
/// Old ASTRO into new, one for one: the converter on the hub (old ASTRO is a cw20 token, burnt in the end) and on outposts
/// (old ASTRO is an IBC coin, sent home to be burnt; Neutron wants a fee for that), the virtual pair a former pool of the
/// two turns into, and vesting contracts moving over.
module converter {
  import math.* from "./math"
  import denoms.* from "./denoms"

  type Msg =
      // way: "send" (the cw20 token's), "direct" (Convert with coins), "forged" (a notification from nobody's token),
      //      "feigned" (the same, speaking for old ASTRO itself), "other" (another token or coin), "both" (old ASTRO with
      //      another coin)
      Convert({ who: str, n: int, dest: str, way: str })
    | Burn({ who: str, paid: int })
    | Transfer({ who: str, timeout: int, paid: int, coin: str })
    | Fund({ n: int })
    | Give({ who: str, what: str, n: int, dest: str })     // a plain transfer
    | MinFee({ ack: int, timeout: int })
    | TurnPair({ who: str, version: str, conv: str })
    | PairSwap({ who: str, what: str, n: int, dest: str, way: str })
    | PairOther({ who: str, what: str })
    | TurnVesting({ who: str, version: str, conv: str })
    | VestClaim({ n: int })
    | Create({ old: str, coin: Denom, burn: bool })
    | Created
  type State = { kind: str, old: str -> int, new: str -> int, ntrn: str -> int, min: { ack: int, timeout: int }, burnt: int,
                 last: { amount: int, after: int }, turned: bool, vestTurned: bool, left: int }
  type Probe = { n: int, sim: int, simNew: int, rev: int, revOld: int }

  var st: State
  var msg: Msg
  var res: str
  var probe: Probe

  pure val USERS = ["alice", "bob", "carol"]
  pure val ALL = Set("alice", "bob", "carol", "conv", "pair", "vesting", "abroad", "fees")
  pure val PAIR_VERSIONS = Set("astroport-pair 1.0.1", "astroport-pair 1.1.0", "astroport-pair 1.3.0", "astroport-pair 1.3.3")
  pure val VESTING_VERSIONS = Set("astroport-vesting 1.1.0", "astroport-vesting 1.2.0", "astroport-vesting 1.3.0", "astroport-vesting 1.3.1")

  type Next = { s: State, why: str }
  pure def refuse(s: State, why: str): Next = { s: s, why: why }
  pure def accept(s: State): Next = { s: s, why: "ok" }
  pure def move(m: str -> int, payer: str, payee: str, n: int): str -> int = {
    val b1 = m.set(payer, m.get(payer) - n)
    b1.set(payee, b1.get(payee) + n)
  }
  /// `payer`'s old ASTRO for the converter's new
  pure def convert(s: State, payer: str, n: int, dest: str): Next =
    if (s.old.get(payer) < n) refuse(s, "insufficient_balance")
    else if (n == 0) refuse(s, "nothing")
    else if (dest == "bad") refuse(s, "bad_address")
    else if (s.new.get("conv") < n) refuse(s, "converter_empty")
    else accept({ ...s, old: move(s.old, payer, "conv", n), new: move(s.new, "conv", dest, n) })

  pure def exec(s: State, m: Msg): Next = match m {
    | Convert(x) =>
        if (x.way != (if (s.kind == "hub") "send" else "direct")) refuse(s, "wrong_way")
        else convert(s, x.who, x.n, x.dest)
    | Burn(x) =>
        if (s.kind != "hub") refuse(s, "not_on_outposts")
        else if (x.paid > 0) refuse(s, "payment")
        else if (s.old.get("conv") == 0) refuse(s, "nothing")
        else accept({ ...s, burnt: s.burnt + s.old.get("conv"), old: s.old.set("conv", 0) })
    | Transfer(x) => {
        val after = if (x.timeout == NONE) 300 else x.timeout
        val toll = s.min.ack + s.min.timeout
        val n = s.old.get("conv")
        if (s.kind == "hub") refuse(s, "not_on_the_hub")
        else if (x.paid > 0 and (s.kind != "neutron" or x.coin != "untrn")) refuse(s, "payment")
        else if (s.ntrn.get(x.who) < x.paid) refuse(s, "insufficient_balance")
        else if (after < 120 or after > 600) refuse(s, "timeout")
        else if (s.kind == "neutron" and s.ntrn.get("conv") + x.paid < toll) refuse(s, "fee")
        else if (n == 0) refuse(s, "nothing")
        else {
          val paid = move(s.ntrn, x.who, "conv", x.paid)
          accept({ ...s, old: move(s.old, "conv", "abroad", n), last: { amount: n, after: after },
                   ntrn: if (s.kind == "neutron") move(paid, "conv", "fees", toll) else s.ntrn })
        }
      }
    | Give(x) => {
        val m = if (x.what == "old") s.old else s.new
        if (m.get(x.who) < x.n) refuse(s, "insufficient_balance")
        else if (x.n == 0) refuse(s, "nothing")
        else if (x.what == "old") accept({ ...s, old: move(s.old, x.who, x.dest, x.n) })
        else accept({ ...s, new: move(s.new, x.who, x.dest, x.n) })
      }
    | Fund(x) => accept({ ...s, new: s.new.set("conv", s.new.get("conv") + x.n) })
    | MinFee(x) => accept({ ...s, min: { ack: x.ack, timeout: x.timeout } })
    | TurnPair(x) =>
        if (x.who != "owner") refuse(s, "unauthorized")
        else if (s.turned or not(PAIR_VERSIONS.contains(x.version))) refuse(s, "version")
        else if (x.conv != "conv") refuse(s, "other_assets")
        else accept({ ...s, turned: true })
    | PairSwap(x) =>
        if (not(s.turned)) refuse(s, "still_a_pool")
        else if (x.what != "old" or x.way != (if (s.kind == "hub") "send" else "direct")) refuse(s, "wrong_way")
        else convert(s, x.who, x.n, x.dest)
    | PairOther(x) => refuse(s, "unsupported")
    | TurnVesting(x) =>
        if (x.who != "owner") refuse(s, "unauthorized")
        else if (s.vestTurned or not(VESTING_VERSIONS.contains(x.version))) refuse(s, "version")
        else if (x.conv != "conv") refuse(s, "other_assets")
        else {
          val r = convert(s, "vesting", s.old.get("vesting"), "vesting")
          if (r.why == "ok") accept({ ...r.s, vestTurned: true }) else refuse(s, r.why)
        }
    | VestClaim(x) =>
        if (x.n > s.left) refuse(s, "not_released")
        else if (s.vestTurned) accept({ ...s, new: move(s.new, "vesting", "alice", x.n), left: s.left - x.n })
        else accept({ ...s, old: move(s.old, "vesting", "alice", x.n), left: s.left - x.n })
    | Create(x) =>
        if (not(wellFormed(x.coin))) refuse(s, "bad_denom")
        else if (x.old == "same") refuse(s, "same")
        else if (Set("native", "ibcs").contains(x.old)) refuse(s, "not_ibc")
        else if (x.old == "cw20" and x.burn) refuse(s, "burn_params")
        else if (Set("ibc", "IBC").contains(x.old) and not(x.burn)) refuse(s, "burn_params")
        else accept(s)
    | Created => accept(s)
  }
  pure def look(s: State, n: int): Probe = if (s.turned) { n: n, sim: n, simNew: NONE, rev: n, revOld: NONE } else { n: n, sim: NONE, simNew: NONE, rev: NONE, revOld: NONE }

  action perform(m: Msg): bool = {
    nondet n = 0.to(100000).oneOf()
    val r = exec(st, m)
    all { st' = r.s, msg' = m, res' = r.why, probe' = look(r.s, n) }
  }
  action init = {
    nondet k_ = RND.oneOf()
    nondet rich = 1.to(25).oneOf()
    nondet funded = 0.to(1500).oneOf()
    nondet left = 0.to(1000).oneOf()
    val kind = pick(["hub", "outpost", "neutron"], k_)
    val v = if (k_ % 5 == 0) 0 else left * 10^rich / 1000 + 1
    val s: State = {
      kind: kind, old: ALL.mapBy(a => if (a == "vesting") v else if (USERS.select(u => u == a).length() > 0) 10^rich else 0),
      new: ALL.mapBy(a => if (a == "conv") 4 * 10^rich * funded / 1000 else 0),
      ntrn: ALL.mapBy(a => if (USERS.select(u => u == a).length() > 0) 1000000 else 0), min: { ack: 1000, timeout: 1000 },
      burnt: 0, last: { amount: NONE, after: NONE }, turned: false, vestTurned: false, left: v }
    all { st' = s, msg' = Created, res' = "ok", probe' = look(s, 1) }
  }
  pure def part(n: int, e: int, f: int): int = n * f / (1000 * 10^e)

  pure def ways(kind: str): List[str] = if (kind == "hub") ["send", "send", "send", "send", "send", "send", "direct", "forged", "feigned", "other"]
                                        else ["direct", "direct", "direct", "direct", "direct", "direct", "both", "forged", "feigned", "other"]
  action doConvert = {
    nondet who_ = RND.oneOf()
    nondet dest_ = RND.oneOf()
    nondet e = 0.to(4).oneOf()
    nondet f = 1.to(1000).oneOf()
    nondet way_ = RND.oneOf()
    nondet through = Set(0, 1, 2, 3).oneOf()
    nondet what_ = RND.oneOf()
    val who = pick(USERS, who_)
    val n = pick([st.new.get("conv"), st.new.get("conv") + 1, part(st.old.get(who), e, f), part(st.old.get(who), e, f), part(st.old.get(who), e, f), part(st.old.get(who), e, f), 0, 1], dest_ / 10)
    val dest = pick([who, who, "alice", "bob", "carol", "bad", "vesting", "conv"], dest_)
    val way = pick(ways(st.kind), way_)
    if (through == 3 or st.turned and through == 2)
      perform(PairSwap({ who: who, what: pick(["old", "old", "old", "old", "old", "old", "new"], what_), n: n, dest: dest, way: way }))
    else perform(Convert({ who: who, n: n, dest: dest, way: way }))
  }
  action doBurn = {
    nondet who_ = RND.oneOf()
    nondet paid_ = RND.oneOf()
    perform(Burn({ who: pick(USERS, who_), paid: pick([0, 0, 0, 0, 5], paid_) }))
  }
  action doTransfer = {
    nondet who_ = RND.oneOf()
    nondet t_ = RND.oneOf()
    nondet paid_ = RND.oneOf()
    nondet coin_ = RND.oneOf()
    val short = max2(st.min.ack + st.min.timeout - st.ntrn.get("conv"), 0)
    perform(Transfer({ who: pick(USERS, who_), timeout: pick([NONE, NONE, 120, 119, 600, 601, 0, 300], t_),
                       paid: if (st.kind == "neutron") pick([short, short, max2(short - 1, 0), short + 7, 0], paid_) else pick([0, 0, 0, 3], paid_),
                       coin: pick(["untrn", "untrn", "untrn", "uother"], coin_) }))
  }
  action doFund = {
    nondet who_ = RND.oneOf()
    nondet f = 1.to(1000).oneOf()
    nondet g_ = RND.oneOf()
    val who = pick(USERS, who_)
    val what = pick(["old", "old", "new"], g_)
    val have = if (what == "old") st.old.get(who) else st.new.get(who)
    if (g_ / 4 % 2 == 0) perform(Give({ who: who, what: what, n: max2(1, part(have, g_ % 3, f)), dest: pick([if (st.turned) "pair" else "conv", if (st.turned) "pair" else "bob", "conv", "vesting", "bob"], g_ / 8) }))
    else perform(Fund({ n: part(max2(st.old.get(pick(USERS, who_)), 1000), 0, f) }))
  }
  action doMinFee = {
    nondet a = Set(0, 1, 1000, 5000).oneOf()
    nondet t = Set(0, 1, 1000, 3000).oneOf()
    perform(MinFee({ ack: a, timeout: t }))
  }
  action doTurn = {
    nondet who_ = RND.oneOf()
    nondet v_ = RND.oneOf()
    nondet c_ = RND.oneOf()
    nondet vest = Set(true, false).oneOf()
    val who = pick(["owner", "owner", "owner", "alice"], who_)
    val conv = pick(["conv", "conv", "conv", "conv", "conv", "conv", "conv", "elsewhere", if (vest) "elsewhere" else "half"], c_)
    if (vest)
      perform(TurnVesting({ who: who, conv: conv, version: pick(["astroport-vesting 1.1.0", "astroport-vesting 1.2.0", "astroport-vesting 1.3.0", "astroport-vesting 1.3.1",
                                                                 "astroport-vesting 1.3.2", "astroport-vesting 1.0.0", "astroport-pair 1.1.0"], v_) }))
    else perform(TurnPair({ who: who, conv: conv, version: pick(["astroport-pair 1.0.1", "astroport-pair 1.1.0", "astroport-pair 1.3.0", "astroport-pair 1.3.3",
                                                                 "astroport-pair 1.3.1", "astroport-pair 2.0.0", "astroport-pair-stable 1.3.3"], v_) }))
  }
  action doVestClaim = {
    nondet f = 1.to(1200).oneOf()
    perform(VestClaim({ n: part(st.left, 0, f) + 1 }))
  }
  action doOther = {
    nondet who_ = RND.oneOf()
    nondet w_ = RND.oneOf()
    nondet b = Set(true, false).oneOf()
    nondet c = Set(true, false).oneOf()
    nondet n_ = RND.oneOf()
    if (c) perform(Create({ old: pick(["cw20", "ibc", "native", "same", "IBC", "ibcs"], w_), coin: denomOf(who_, n_), burn: b }))
    else perform(PairOther({ who: pick(USERS, who_), what: pick(["provide", "withdraw", "config"], w_) }))
  }
  action go = {
    nondet k_ = RND.oneOf()
    if (k_ % 100 < 53) doConvert
    else if (k_ % 100 < 59) doBurn
    else if (k_ % 100 < 69) doTransfer
    else if (k_ % 100 < 77) doFund
    else if (k_ % 100 < 81) doMinFee
    else if (k_ % 100 < 89) doTurn
    else if (k_ % 100 < 94) doVestClaim
    else doOther
  }
  action step = go

  // ---- what must hold -------------------------------------------------------------------------------------------

  /// the old ASTRO given up and the new ASTRO handed out are the same amount
  val Solvent = ALL.forall(a => st.old.get(a) >= 0 and st.new.get(a) >= 0 and st.ntrn.get(a) >= 0)
  val Vested = st.left <= (if (st.vestTurned) st.new.get("vesting") else st.old.get("vesting"))
  val Safe = Solvent and Vested
}
