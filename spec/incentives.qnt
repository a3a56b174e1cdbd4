// -*- mode: Bluespec; -*-
/// The incentives contract: staked LP tokens, protocol emissions by allocation points, external reward schedules, and
/// who may change what. Rewards are indexes per staked token (1e-18 units); a token's reward in a pool lives in
/// generations: one ends when its last schedule ends or the owner removes it, and stakers keep what it owed them.
module incentives {
  import math.* from "./math"
  import upgrades.* from "./upgrades"
  import denoms.* from "./denoms"

  type Fund = { pool: int, token: str, amount: int, periods: int }
  type Msg =
      Setup({ who: str, pools: List[{ pool: int, alloc: int }] })
    | SetTps({ who: str, amount: int })
    | Deposit({ who: str, pool: int, amount: int, to: str, how: str })
    | Withdraw({ who: str, pool: int, amount: int })
    | Claim({ who: str, pools: List[int] })
    | Incentivize({ who: str, items: List[Fund], funds: str })
    | Remove({ who: str, pool: int, token: str, bypass: bool, to: str })
    | Orphans({ who: str, limit: int, to: str })
    | Block({ who: str, add: List[str], remove: List[str] })
    | Deactivate({ who: str, pool: int })                  // straight to the incentives contract
    | Deregister({ who: str, pool: int })                  // on the factory
    | DisableType({ who: str, stable: bool, off: bool })   // on the factory
    | DeactivateBlocked({ who: str })
    | Config({ who: str, controller: str, guardian: str, fee: int, feeDenom: str, gas: int, astro: str })
    | Wait({ seconds: int })
      // with what is not the LP token of a registered pair: LP tokens of a pair nobody registered ("rogue"), other coins and
      // cw20 tokens a registered pair is the minter of ("sub", "twin"), coins and tokens of other makers
    | Fake({ who: str, what: str, how: str })
      // a new configuration with one wrong entry, or (fresh) another contract with it, or ("") with none
    | Wrong({ who: str, what: str, coin: Denom, fresh: bool })
    | Upgrade(Release)
    | Created

  type Reward = { on: bool, rps: int, index: int, orphaned: int, next: int }
  type Slot = { end: int, rps: int }
  type Position = { on: bool, amount: int, idx: str -> int, astro: int, seen: int, synced: int }   // synced: when
  type Pool = {
    known: bool, registered: bool,
    total: int, last: int, alloc: int,
    protocol: Reward,
    coin: str,                                     // what the protocol reward is called
    ext: str -> Reward,
    slots: str -> List[Slot],                      // by end: until then that rate, from the end of the one before
    finished: List[{ token: str, index: int }],
    pos: str -> Position,
    lp: str -> int,                                // LP tokens held outside
    left: Set[str]                                 // tokens removed with their upcoming schedules left behind
  }
  type State = {
    pools: List[Pool], tps: int, orphans: str -> int, blocked: Set[str], off: Set[bool],
    controller: str, guardian: str, fee: int, feeDenom: str, gas: int,
    astro: str,                                    // what counts as ASTRO: free of fees and limits, never blocked
    bal: str -> (str -> int), now: int,
    theme: int                                     // what this behaviour is mostly about
  }
  /// a page of each list: at most `limit` entries behind `after` (its position in the list; NONE: from the start)
  type Page = { after: int, limit: int, stakers: List[str], pools: List[int], blocked: List[str], schedules: List[int] }
  type Probe = {
    user: str, pool: int, token: str,
    pending: { ok: bool, owed: str -> int },
    rewards: { known: bool, protocol: Reward, ext: str -> Reward },
    schedules: { ok: bool, list: List[{ rps: int, start: int, end: int }] },
    page: Page,
    feeExpected: bool,
    totalAlloc: int, active: List[int], blocked: str -> bool
  }

  var st: State
  var msg: Msg
  var res: str
  var probe: Probe

  pure val NAMES = ["alice", "bob", "carol"]
  pure val USERS = Set("alice", "bob", "carol")
  pure val TOKENS = ["astro", "gold", "lead", "tin", "zinc", "silver", "nasty"]    // in the contract's key order
  pure val NATIVE = Set("astro", "gold", "lead", "tin", "zinc")
  pure val HOLDERS = Set("alice", "bob", "carol", "dave", "inc", "feeman", "vest")
  pure val POOL_ASSETS = [Set("gold", "uusd"), Set("uusd", "uatom"), Set("silver", "uatom")]
  pure val POOL_STABLE = [false, false, true]
  /// the pool whose LP token is a cw20 (of a pair from before token factory LP tokens)
  pure val LEGACY = 1
  pure val EPOCHS_START = 1696809600
  pure val WEEK = 604800
  pure val MAX_PERIODS = 25
  pure val MAX_REWARD_TOKENS = 5
  pure val POOLS = 0.to(2)

  pure val NO_REWARD: Reward = { on: false, rps: 0, index: 0, orphaned: 0, next: 0 }
  pure val NO_MAP: str -> int = Set("astro", "gold", "lead", "tin", "zinc", "silver", "nasty").mapBy(_ => 0)
  pure val NO_POS: Position = { on: false, amount: 0, idx: NO_MAP, astro: 0, seen: 0, synced: 0 }
  pure val TOKEN_SET = Set("astro", "gold", "lead", "tin", "zinc", "silver", "nasty")

  // ---- accrual ------------------------------------------------------------------------------------------------

  type Update = { p: Pool, orphans: str -> int }

  /// One external reward brought up to `now`
  pure def advance(r: Reward, slots: List[Slot], last: int, now: int): { r: Reward, got: int } = {
    if (r.next > now) { r: r, got: r.rps * (now - last) }
    else {
      val first = { got: r.rps * (r.next - last), from: r.next, rps: 0, until: 0, found: false }
      val w = slots.foldl(first, (a, e) =>
        if (e.end <= r.next or a.found) a
        else if (e.end > now) { ...a, rps: e.rps, until: e.end, found: true }
        else { ...a, got: a.got + e.rps * (e.end - a.from), from: e.end })
      if (w.found) { r: { ...r, rps: w.rps, next: w.until }, got: w.got + w.rps * (now - w.from) }
      else { r: { ...r, on: false, rps: 0 }, got: w.got }
    }
  }
  pure def spread(r: Reward, got: int, total: int): Reward =
    if (total == 0) { ...r, orphaned: r.orphaned + got }
    else { ...r, index: r.index + (r.orphaned + got) / total, orphaned: 0 }

  /// A generation ends: stakers keep its index; what nobody was staked for is set aside.
  pure def finish(u: Update, t: str, r: Reward): Update = {
    p: { ...u.p, ext: u.p.ext.set(t, NO_REWARD), finished: u.p.finished.append({ token: t, index: r.index }) },
    orphans: u.orphans.set(t, u.orphans.get(t) + r.orphaned / E18)
  }

  pure def update(p: Pool, orphans: str -> int, now: int): Update =
    if (now == p.last) { p: p, orphans: orphans }
    else {
      val protocol = if (p.protocol.on) spread(p.protocol, p.protocol.rps * (now - p.last), p.total) else p.protocol
      val start = { p: { ...p, protocol: protocol, last: now, known: true }, orphans: orphans }
      TOKENS.foldl(start, (u, t) => {
        val r = p.ext.get(t)
        if (not(r.on)) u
        else {
          val a = advance(r, p.slots.get(t), p.last, now)
          val r2 = spread(a.r, a.got, p.total)
          if (a.r.on) { ...u, p: { ...u.p, ext: u.p.ext.set(t, r2) } } else finish(u, t, r2)
        }
      })
    }

  /// What a position is owed in a pool that is up to date
  pure def owed(p: Pool, x: Position): { ext: str -> int, astro: int } = {
    val news = p.finished.slice(x.seen, p.finished.length())
    val closed = news.foldl({ base: x.idx, sum: NO_MAP }, (a, g) => {
      sum: a.sum.set(g.token, a.sum.get(g.token) + mulDec(x.amount, g.index - a.base.get(g.token))),
      base: a.base.set(g.token, 0)
    })
    val ext = TOKENS.foldl(closed.sum, (a, t) =>
      if (p.ext.get(t).on) a.set(t, a.get(t) + mulDec(x.amount, p.ext.get(t).index - closed.base.get(t))) else a)
    { ext: ext, astro: if (p.protocol.on) mulDec(x.amount, p.protocol.index - x.astro) else 0 }
  }
  pure def synced(p: Pool, x: Position): Position =
    { ...x, idx: TOKEN_SET.mapBy(t => p.ext.get(t).index), astro: p.protocol.index, seen: p.finished.length(), synced: p.last }

  pure def move(s: State, t: str, payer: str, payee: str, n: int): State = {
    val b = s.bal.get(t)
    val b1 = b.set(payer, b.get(payer) - n)
    { ...s, bal: s.bal.set(t, b1.set(payee, b1.get(payee) + n)) }
  }
  /// A reward payment; the nasty token refuses transfers to carol, and then the payment is lost, nothing else.
  pure def payReward(s: State, t: str, payee: str, n: int): State =
    if (n == 0 or (t == "nasty" and payee == "carol")) s else move(s, t, "inc", payee, n)

  pure def withPool(s: State, i: int, u: Update): State = { ...s, pools: s.pools.replaceAt(i, u.p), orphans: u.orphans }
  pure def fresh(s: State, i: int): State = withPool(s, i, update(s.pools[i], s.orphans, s.now))

  /// Pays the user everything due in a pool
  pure def claimIn(s0: State, i: int, user: str): State = {
    val s = fresh(s0, i)
    val p = s.pools[i]
    val x = p.pos.get(user)
    val o = owed(p, x)
    val paid = TOKENS.foldl(s, (a, t) => payReward(a, t, user, o.ext.get(t)))
    val paid2 = move(paid, "astro", "vest", user, o.astro)
    { ...paid2, pools: paid2.pools.replaceAt(i, { ...p, pos: p.pos.set(user, synced(p, x)) }) }
  }

  // ---- emissions ----------------------------------------------------------------------------------------------

  pure def totalAlloc(s: State): int = s.pools.foldl(0, (a, p) => a + p.alloc)
  pure def isActive(s: State, i: int): bool = s.pools[i].alloc > 0
  /// Every active pool gets its share of the emissions from now on
  pure def emit(s: State): State = {
    val total = totalAlloc(s)
    POOLS.fold(s, (a, i) =>
      if (not(isActive(a, i))) a
      else {
        val f = fresh(a, i)
        val p = f.pools[i]
        { ...f, pools: f.pools.replaceAt(i, { ...p, coin: if (p.protocol.on) p.coin else a.astro, protocol: { ...p.protocol, on: true, rps: ratio(s.tps * p.alloc, total) } }) }
      })
  }
  pure def retire(s: State, gone: Set[int]): State =
    gone.fold(s, (a, i) => {
      val f = fresh(a, i)
      val p = f.pools[i]
      { ...f, pools: f.pools.replaceAt(i, { ...p, alloc: 0, protocol: { ...p.protocol, rps: 0 } }) }
    })

  // ---- messages -----------------------------------------------------------------------------------------------

  type Next = { s: State, why: str }
  pure def refuse(s: State, why: str): Next = { s: s, why: why }
  pure def accept(s: State): Next = { s: s, why: "ok" }

  pure def setup(s: State, m: { who: str, pools: List[{ pool: int, alloc: int }] }): Next =
    if (m.who != "owner" and (s.controller == "" or m.who != s.controller)) refuse(s, "unauthorized")
    else if (m.pools.select(x => x.alloc == 0).length() > 0) refuse(s, "zero_alloc")
    else if (m.pools.foldl(Set(), (a, x) => a.union(Set(x.pool))).size() < m.pools.length()) refuse(s, "duplicate_pool")
    else if (m.pools.select(x => not(s.pools[x.pool].registered)).length() > 0) refuse(s, "not_registered")
    else if (m.pools.select(x => POOL_ASSETS[x.pool].intersect(s.blocked) != Set()).length() > 0) refuse(s, "blocked_token")
    else if (m.pools.select(x => s.off.contains(POOL_STABLE[x.pool])).length() > 0) refuse(s, "blocked_type")
    else {
      val cleared = retire(s, POOLS.filter(i => isActive(s, i)))
      val chosen = m.pools.foldl(cleared, (a, x) => { ...a, pools: a.pools.replaceAt(x.pool, { ...a.pools[x.pool], alloc: x.alloc, known: true }) })
      accept(emit(chosen))
    }

  pure def deposit(s: State, m: { who: str, pool: int, amount: int, to: str, how: str }): Next = {
    val p = s.pools[m.pool]
    if (m.how == "foreign") refuse(s, "not_an_lp_token")
    else if (m.how == "hook") refuse(s, "not_an_lp_token")
    else if (m.how == "two") refuse(s, "one_coin_expected")
    else if (m.amount == 0 and m.pool != LEGACY) refuse(s, "no_funds")
    else if (p.lp.get(m.who) < m.amount) refuse(s, "insufficient_balance")
    else if (not(p.registered)) refuse(s, "not_registered")
    else {
      val s1 = claimIn(s, m.pool, m.to)
      val q = s1.pools[m.pool]
      val x = q.pos.get(m.to)
      val q2 = { ...q, known: true, total: q.total + m.amount, pos: q.pos.set(m.to, { ...x, on: true, amount: x.amount + m.amount }),
                 lp: q.lp.set(m.who, q.lp.get(m.who) - m.amount) }
      accept({ ...s1, pools: s1.pools.replaceAt(m.pool, q2) })
    }
  }
  pure def withdraw(s: State, m: { who: str, pool: int, amount: int }): Next = {
    val x = s.pools[m.pool].pos.get(m.who)
    if (not(x.on)) refuse(s, "no_position")
    else if (x.amount < m.amount) refuse(s, "exceeds_position")
    else if (m.amount == 0 and m.pool != LEGACY) refuse(s, "zero_withdrawal")     // the bank does not move nothing
    else {
      val s1 = claimIn(s, m.pool, m.who)
      val q = s1.pools[m.pool]
      val y = q.pos.get(m.who)
      val left = y.amount - m.amount
      val q2 = { ...q, total: q.total - m.amount, pos: q.pos.set(m.who, if (left == 0) NO_POS else { ...y, amount: left }),
                 lp: q.lp.set(m.who, q.lp.get(m.who) + m.amount) }
      accept({ ...s1, pools: s1.pools.replaceAt(m.pool, q2) })
    }
  }
  pure def claim(s: State, m: { who: str, pools: List[int] }): Next =
    if (m.pools.foldl(Set(), (a, i) => a.union(Set(i))).size() < m.pools.length()) refuse(s, "duplicate_pool")
    else if (m.pools.select(i => not(s.pools[i].pos.get(m.who).on)).length() > 0) refuse(s, "no_position")
    else accept(m.pools.foldl(s, (a, i) => claimIn(a, i, m.who)))

  // ---- external rewards ---------------------------------------------------------------------------------------

  pure def nextEpoch(now: int): int = EPOCHS_START + (now % EPOCHS_START / WEEK + 1) * WEEK
  pure def endOf(now: int, periods: int): int = nextEpoch(now) + periods * WEEK

  pure def putSlot(l: List[Slot], end: int, rps: int): List[Slot] =
    l.select(e => e.end < end).append({ end: end, rps: rps }).concat(l.select(e => e.end > end))

  /// A new schedule of `rps` until `end` on top of what is running
  pure def extend(p: Pool, t: str, rps: int, end: int, now: int): Pool = {
    val r = p.ext.get(t)
    val l = p.slots.get(t)
    if (not(r.on)) { ...p, ext: p.ext.set(t, { on: true, rps: rps, index: 0, orphaned: 0, next: end }) }
    else if (r.next >= end) {
      val l2 = if (r.next > end) putSlot(l, r.next, r.rps) else l
      { ...p, slots: p.slots.set(t, l2), ext: p.ext.set(t, { ...r, rps: r.rps + rps, next: end }) }
    } else {
      // the slots it overlaps get faster; the one it ends in is split; beyond the last it runs alone
      val over = l.select(e => e.end > nextEpoch(now))
      val inner = over.select(e => e.end < end)
      val outer = over.select(e => e.end >= end)
      val raised = inner.foldl(l, (a, e) => putSlot(a, e.end, e.rps + rps))
      val l2 = putSlot(raised, end, rps + (if (outer.length() > 0) outer[0].rps else 0))
      { ...p, slots: p.slots.set(t, l2), ext: p.ext.set(t, { ...r, rps: r.rps + rps }) }
    }
  }
  pure def countExt(p: Pool): int = TOKENS.foldl(0, (a, t) => if (p.ext.get(t).on) a + 1 else a)

  /// `sent`: native coins still to be accounted for
  type Many = { s: State, sent: str -> int, feeSent: int, why: str }
  pure def fundOne(m: Many, who: str, f: Fund): Many = {
    val s = m.s
    val end = endOf(s.now, f.periods)
    val f1 = fresh(s, f.pool)
    val p = f1.pools[f.pool]
    val isNew = not(p.ext.get(f.token).on)
    val fee = if (isNew and f.token != s.astro) s.fee else 0
    val feeFromSent = fee > 0 and s.feeDenom == "gold"
    val sent1 = if (feeFromSent) m.sent.set("gold", m.sent.get("gold") - fee) else m.sent
    val feeSent1 = if (fee > 0 and s.feeDenom == "ufee") m.feeSent - fee else m.feeSent
    val sent2 = if (NATIVE.contains(f.token)) sent1.set(f.token, sent1.get(f.token) - f.amount) else sent1
    if (m.why != "") m
    else if (f.periods == 0 or f.periods > MAX_PERIODS) { ...m, why: "duration" }
    else if (f.amount < end - s.now) { ...m, why: "rate_below_one" }
    else if (s.blocked.contains(f.token)) { ...m, why: "blocked_token" }
    else if (not(p.registered)) { ...m, why: "not_registered" }
    else if (isNew and countExt(p) >= MAX_REWARD_TOKENS and f.token != s.astro) { ...m, why: "too_many_rewards" }
    else if (feeSent1 < 0 or (feeFromSent and sent1.get("gold") < 0)) { ...m, why: "fee_missing" }
    else if (NATIVE.contains(f.token) and sent2.get(f.token) < 0) { ...m, why: "reward_missing" }
    else if (not(NATIVE.contains(f.token)) and s.bal.get(f.token).get(who) < f.amount) { ...m, why: "insufficient_balance" }
    else {
      val q = extend(p, f.token, ratio(f.amount, end - s.now), end, s.now)
      val s2 = move({ ...f1, pools: f1.pools.replaceAt(f.pool, { ...q, known: true }) }, f.token, who, "inc", f.amount)
      val s3 = if (fee > 0) move(s2, s.feeDenom, who, "feeman", fee) else s2
      { s: s3, sent: sent2, feeSent: feeSent1, why: "" }
    }
  }
  /// What the sender has to send along: the native rewards and a fee for each new one
  pure def toSend(s: State, m: { who: str, items: List[Fund], funds: str }): { sent: str -> int, fee: int } = {
    val natives = m.items.foldl(NO_MAP, (a, f) => if (NATIVE.contains(f.token)) a.set(f.token, a.get(f.token) + f.amount) else a)
    // a token counts as new once per message and pool
    val w = m.items.foldl({ fee: 0, seen: Set() }, (a, f) => {
      val isNew = not(fresh(s, f.pool).pools[f.pool].ext.get(f.token).on) and not(a.seen.contains((f.pool, f.token)))
      { fee: if (isNew and f.token != s.astro) a.fee + s.fee else a.fee, seen: a.seen.union(Set((f.pool, f.token))) }
    })
    if (m.funds == "nofee") { sent: natives, fee: 0 }
    else if (s.feeDenom == "gold") { sent: natives.set("gold", natives.get("gold") + w.fee), fee: 0 }
    else { sent: natives, fee: w.fee }
  }
  pure def incentivize(s: State, m: { who: str, items: List[Fund], funds: str }): Next = {
    val due = toSend(s, m)
    val key = TOKENS.select(t => due.sent.get(t) > 0)
    val sent = if (m.funds == "short" and key.length() > 0) due.sent.set(key[0], due.sent.get(key[0]) - 1)
               else if (m.funds == "over" and key.length() > 0) due.sent.set(key[0], due.sent.get(key[0]) + 1) else due.sent
    val r = m.items.foldl({ s: s, sent: sent, feeSent: due.fee, why: "" }, (a, f) => fundOne(a, m.who, f))
    if (TOKENS.select(t => sent.get(t) > s.bal.get(t).get(m.who)).length() > 0 or due.fee > s.bal.get("ufee").get(m.who)) refuse(s, "insufficient_balance")
    else if (r.why != "") refuse(s, r.why)
    else if (m.funds == "extra" or r.feeSent != 0 or TOKENS.select(t => r.sent.get(t) != 0).length() > 0) refuse(s, "unexpected_funds")
    else accept(r.s)
  }

  pure def removeReward(s: State, m: { who: str, pool: int, token: str, bypass: bool, to: str }): Next = {
    val f = fresh(s, m.pool)
    val p = f.pools[m.pool]
    val r = p.ext.get(m.token)
    if (m.who != "owner") refuse(s, "unauthorized")
    else if (not(s.pools[m.pool].known)) refuse(s, "no_pool")
    else if (not(r.on)) refuse(s, "no_reward")
    else {
      val l = p.slots.get(m.token)
      val upcoming = l.select(e => e.end > r.next)
      val rest = upcoming.foldl({ sum: 0, from: r.next }, (a, e) => { sum: a.sum + e.rps * (e.end - a.from), from: e.end })
      // stakers keep what the index owes them; everything not yet given out goes to the receiver
      val back = r.rps * (r.next - s.now) + r.orphaned + (if (m.bypass) 0 else rest.sum)
      val u = finish({ p: { ...p, slots: p.slots.set(m.token, []),
                            left: if (m.bypass and upcoming.length() > 0) p.left.union(Set(m.token)) else p.left }, orphans: f.orphans },
                     m.token, { ...r, orphaned: 0 })
      accept(payReward(withPool(f, m.pool, u), m.token, m.to, back / E18))
    }
  }
  pure def orphansOut(s: State, m: { who: str, limit: int, to: str }): Next = {
    val have = TOKENS.select(t => s.orphans.get(t) > 0)
    val n = if (m.limit == NONE) 10 else m.limit
    if (m.who != "owner") refuse(s, "unauthorized")
    else if (have.length() == 0 or n == 0) refuse(s, "no_orphans")
    else accept(have.slice(0, min2(n, have.length())).foldl(s, (a, t) =>
      payReward({ ...a, orphans: a.orphans.set(t, 0) }, t, m.to, s.orphans.get(t))))
  }

  // ---- administration -----------------------------------------------------------------------------------------

  pure def distinct(l: List[str]): bool = l.foldl(Set(), (a, x) => a.union(Set(x))).size() == l.length()
  pure def block(s: State, m: { who: str, add: List[str], remove: List[str] }): Next =
    if (m.who != "owner" and (s.guardian == "" or m.who != s.guardian)) refuse(s, "unauthorized")
    else if (not(distinct(m.add.concat(m.remove)))) refuse(s, "duplicate_token")
    else if (m.remove.select(t => not(s.blocked.contains(t))).length() > 0) refuse(s, "not_blocked")
    else if (m.add.select(t => t == s.astro).length() > 0) refuse(s, "cannot_block_astro")
    else if (m.add.select(t => s.blocked.contains(t)).length() > 0) refuse(s, "already_blocked")
    else {
      val added = m.add.foldl(Set(), (a, t) => a.union(Set(t)))
      val removed = m.remove.foldl(Set(), (a, t) => a.union(Set(t)))
      val s1 = { ...s, blocked: s.blocked.exclude(removed).union(added) }
      val gone = POOLS.filter(i => isActive(s, i) and POOL_ASSETS[i].intersect(added) != Set())
      accept(if (gone == Set()) s1 else emit(retire(s1, gone)))
    }

  pure val CONTRACT = "astroport-incentives"
  pure val RELEASES = ["1.0.0", "1.0.1", "1.1.0", "1.2.0"]
  pure def exec(s: State, m: Msg): Next = match m {
    | Upgrade(x) => if (knows(x, CONTRACT, RELEASES)) accept(s) else refuse(s, "release")
    | Setup(x) => setup(s, x)
    | Fake(_) => refuse(s, "not_a_pool")
    | Wrong(x) => if (x.fresh and x.what == "" and wellFormed(x.coin)) accept(s) else refuse(s, "invalid")
    | SetTps(x) => if (x.who != "owner") refuse(s, "unauthorized") else accept(emit({ ...s, tps: x.amount }))
    | Deposit(x) => deposit(s, x)
    | Withdraw(x) => withdraw(s, x)
    | Claim(x) => claim(s, x)
    | Incentivize(x) => incentivize(s, x)
    | Remove(x) => removeReward(s, x)
    | Orphans(x) => orphansOut(s, x)
    | Block(x) => block(s, x)
    | Deactivate(_) => refuse(s, "unauthorized")
    | Deregister(x) =>
        if (x.who != "owner") refuse(s, "unauthorized")
        else if (not(s.pools[x.pool].registered)) refuse(s, "not_registered")
        else {
          val s1 = { ...s, pools: s.pools.replaceAt(x.pool, { ...s.pools[x.pool], registered: false }) }
          accept(if (isActive(s, x.pool)) emit(retire(s1, Set(x.pool))) else s1)
        }
    | DisableType(x) =>
        if (x.who != "owner") refuse(s, "unauthorized")
        else accept({ ...s, off: if (x.off) s.off.union(Set(x.stable)) else s.off.exclude(Set(x.stable)) })
    | DeactivateBlocked(_) => {
        val gone = POOLS.filter(i => isActive(s, i) and s.off.contains(POOL_STABLE[i]))
        accept(if (gone == Set()) s else emit(retire(s, gone)))
      }
    | Config(x) =>
        if (x.who != "owner") refuse(s, "unauthorized")
        else if (x.gas != NONE and (x.gas < 400000 or x.gas > 1500000)) refuse(s, "gas_limit")
        else accept({ ...s, pools: if (x.astro == "") s.pools else s.pools.foldl([], (l, p) => l.append(if (p.alloc > 0) { ...p, coin: x.astro } else p)),
                      controller: if (x.controller == "") s.controller else x.controller,
                      guardian: if (x.guardian == "") s.guardian else x.guardian,
                      fee: if (x.fee == NONE) s.fee else x.fee, feeDenom: if (x.fee == NONE) s.feeDenom else x.feeDenom,
                      gas: if (x.gas == NONE) s.gas else x.gas, astro: if (x.astro == "") s.astro else x.astro })
    | Wait(w) => accept({ ...s, now: s.now + w.seconds })
    | Created => accept(s)
  }

  pure def some(l: List[a], after: int, limit: int): List[a] =
    l.slice(min2(after + 1, l.length()), min2(after + 1 + (if (limit == NONE) 50 else limit), l.length()))
  pure val POOL_ORDER = [1, 0, 2]
  pure val TOKEN_ORDER = ["astro", "uatom", "gold", "lead", "tin", "uusd", "zinc", "silver", "nasty"]
  pure def turn(s: State, i: int, r: Reward, slots: List[Slot], after: int, limit: int): Page = {
    val stakers = NAMES.select(u => s.pools[i].pos.get(u).on)
    val known = POOL_ORDER.select(k => s.pools[k].known)
    val blocked = TOKEN_ORDER.select(t => s.blocked.contains(t))
    val ends = if (s.pools[i].known and r.on) [r.next].concat(slots.select(e => e.end > r.next).foldl([], (l, e) => l.append(e.end))) else []
    { after: after, limit: limit, stakers: if (after >= stakers.length()) [] else some(stakers, after, limit), pools: if (after >= known.length()) [] else some(known, after, limit),
      blocked: if (after >= blocked.length()) [] else some(blocked, after, limit), schedules: if (after >= ends.length() or limit == 0) [] else some(ends, after, limit) }
  }
  pure def look(s: State, user: str, i: int, t: str, after: int, limit: int): Probe = {
    val f = fresh(s, i)
    val p = f.pools[i]
    val x = p.pos.get(user)
    val o = owed(p, x)
    val ok = s.pools[i].known and x.on
    val r = p.ext.get(t)
    val upcoming = p.slots.get(t).select(e => e.end > r.next)
    val list = upcoming.foldl({ l: [{ rps: r.rps, start: s.now, end: r.next }], from: r.next }, (a, e) =>
      { l: a.l.append({ rps: e.rps, start: a.from, end: e.end }), from: e.end }).l
    { user: user, pool: i, token: t,
      pending: { ok: ok, owed: if (ok and p.protocol.on) o.ext.set(p.coin, o.ext.get(p.coin) + o.astro) else if (ok) o.ext else NO_MAP },
      rewards: if (s.pools[i].known) { known: true, protocol: p.protocol, ext: p.ext }
               else { known: false, protocol: NO_REWARD, ext: TOKEN_SET.mapBy(_ => NO_REWARD) },
      schedules: if (s.pools[i].known and r.on) { ok: true, list: list } else { ok: false, list: [] },
      feeExpected: t != s.astro and not(r.on),
      page: turn(s, i, r, p.slots.get(t), after, limit),
      totalAlloc: totalAlloc(s), active: s.pools.foldl([], (a, q) => a.append(q.alloc)),
      blocked: ALL.mapBy(b => s.blocked.contains(b)) }
  }
  pure val ALL = Set("astro", "gold", "lead", "tin", "zinc", "silver", "nasty", "uusd", "uatom")

  // ---- behaviours ---------------------------------------------------------------------------------------------

  action perform(m: Msg): bool = {
    nondet pu = USERS.oneOf()
    nondet pi = POOLS.oneOf()
    nondet pt_ = RND.oneOf()
    nondet pg_ = RND.oneOf()
    val r = exec(st, m)
    val on = TOKENS.select(t => r.s.pools[pi].ext.get(t).on)
    val pt = if (pt_ % 3 > 0 and on.length() > 0) on[pt_ / 3 % on.length()] else pick(TOKENS, pt_ / 3)
    all { st' = r.s, msg' = m, res' = r.why, probe' = look(r.s, pu, pi, pt, pick([NONE, 0, 1, NONE, 2], pg_), pick([NONE, 1, 2, 0, 3, 60], pg_ / 5)) }
  }

  pure def start(rich: int, guardian: str, fee: int, feeDenom: str, time: int, theme: int): State = {
    val p: Pool = {
      known: false, registered: true, total: 0, last: 0, alloc: 0, protocol: NO_REWARD, coin: "",
      ext: TOKEN_SET.mapBy(_ => NO_REWARD), slots: TOKEN_SET.mapBy(_ => []), finished: [],
      pos: USERS.mapBy(_ => NO_POS), lp: USERS.mapBy(_ => 10^rich), left: Set() }
    { pools: [p, p, p], tps: 0, orphans: NO_MAP, blocked: Set(), off: Set(),
      controller: "", guardian: guardian, fee: fee, feeDenom: feeDenom, gas: NONE, astro: "astro",
      bal: TOKEN_SET.union(Set("ufee")).mapBy(t => HOLDERS.mapBy(h =>
        if (USERS.contains(h)) 10^16 else if (h == "vest" and t == "astro") 10^18 else 0)),
      now: EPOCHS_START + time, theme: theme }
  }
  action init = {
    nondet rich = 3.to(13).oneOf()
    nondet fee_ = RND.oneOf()
    nondet offset = Set(0, 1, 100000, 604799).oneOf()
    nondet weeks = 1.to(60).oneOf()
    nondet theme = 0.to(5).oneOf()
    val s = start(rich, if (fee_ % 3 == 0) "" else "guard", pick([0, 0, 1000, 250], fee_), pick(["ufee", "gold", "ufee"], fee_ / 7), weeks * WEEK + offset, theme)
    all { st' = s, msg' = Created, res' = "ok", probe' = look(s, "alice", 0, "gold", NONE, NONE) }
  }

  /// Single behaviours that random ones stay clear of: see DESIGN.md, findings.
  action initScript = {
    val s = start(9, "guard", 0, "ufee", 5 * WEEK + 1000, 100)
    all { st' = s, msg' = Created, res' = "ok", probe' = look(s, "carol", 2, "tin", NONE, NONE) }
  }
  action follow(l: List[Msg]): bool = {
    val i = st.theme - 100
    val m = if (i < l.length()) l[i] else Wait({ seconds: 1 })
    val r = exec({ ...st, theme: st.theme + 1 }, m)
    all { st' = r.s, msg' = m, res' = r.why, probe' = look(r.s, "carol", 2, "tin", NONE, NONE) }
  }
  pure def gold(amount: int, periods: int): Msg =
    Incentivize({ who: "bob", items: [{ pool: 0, token: "gold", amount: amount, periods: periods }], funds: "exact" })
  pure def removeGold(bypass: bool): Msg = Remove({ who: "owner", pool: 0, token: "gold", bypass: bypass, to: "dave" })
  pure val STAKE = Deposit({ who: "alice", pool: 0, amount: 1000000, to: "alice", how: "lp" })
  pure val CLAIM = Claim({ who: "alice", pools: [0] })
  action leftBehind = follow([
    STAKE, gold(10000000000, 1), gold(90000000000, 12), removeGold(true), gold(20000000000, 1), Wait({ seconds: 3 * WEEK }), CLAIM])
  action sameSecond = follow([
    STAKE, gold(10000000000, 1), Wait({ seconds: 3 * 86400 }), CLAIM, removeGold(false), gold(90000000000, 1), Wait({ seconds: 6 * 86400 }), CLAIM])
  action staleIndex = follow([
    STAKE, gold(90000000000, 1), Wait({ seconds: 6 * 86400 }), CLAIM, removeGold(false), gold(10000000000, 1), Wait({ seconds: 3 * WEEK }), CLAIM])

  action doDeposit = {
    nondet who = USERS.oneOf()
    nondet to_ = RND.oneOf()
    nondet i_ = RND.oneOf()
    nondet e = 0.to(4).oneOf()
    nondet f = 1.to(1010).oneOf()
    nondet how_ = RND.oneOf()
    val i = pick([0, 0, 0, 1, 1, 2], i_)
    val how = if (how_ % 25 == 0) pick(["foreign", "hook", "two"], how_ / 25) else "lp"
    perform(Deposit({ who: who, pool: i, amount: if (i == LEGACY and to_ % 11 == 0) 0 else st.pools[i].lp.get(who) * f / (1000 * 10^e), to: if (to_ % 4 == 0) pick(NAMES, to_ / 4) else who, how: how }))
  }
  action doWithdraw = {
    nondet k_ = RND.oneOf()
    nondet f = 1.to(1060).oneOf()
    nondet all_ = RND.oneOf()
    val held = [0, 1, 2].foldl([], (a, i) => a.concat(NAMES.select(u => st.pools[i].pos.get(u).on).foldl([], (b, u) => b.append({ pool: i, who: u }))))
    val c = if (held.length() == 0 or k_ < 300) { pool: k_ % 3, who: pick(NAMES, k_ / 3) } else pick(held, k_)
    val n = st.pools[c.pool].pos.get(c.who).amount
    perform(Withdraw({ who: c.who, pool: c.pool, amount: if (all_ % 3 == 0) n else if (all_ % 7 == 0) 0 else n * f / 1000 }))
  }
  action doClaim = {
    nondet k_ = RND.oneOf()
    nondet who = USERS.oneOf()
    val mine = [0, 1, 2].select(i => st.pools[i].pos.get(who).on)
    perform(Claim({ who: who, pools: if (k_ % 20 == 0) [0, 0] else if (k_ % 20 == 1) [k_ % 3] else if (k_ % 20 < 8 and mine.length() > 0) [pick(mine, k_ / 20)] else mine }))
  }
  pure def fundOf(s: State, i_: int, t_: int, k_: int, n_: int, x_: int): Fund = {
    val i = if (s.theme == 3) 0 else if (s.theme == 5) pick([0, 0, 0, 1], i_) else pick([0, 0, 0, 0, 1, 1, 2], i_)
    val t = if (s.theme == 3) pick(TOKENS, t_) else if (s.theme == 5) pick(["gold", "gold", "silver"], t_) else pick(["gold", "gold", "gold", "gold", "gold", "silver", "silver", "silver", "silver", "nasty", "nasty", "astro", "astro", "tin", "lead", "zinc"], t_)
    val n = if (s.theme == 3) pick([1, 1, 1, 2], n_) else pick([1, 1, 1, 1, 2, 2, 2, 3, 3, 5, 5, 12, 12, 25, 25, 26, 0], n_)
    val dt = endOf(s.now, n) - s.now
    val live = if (s.pools[i].left.contains(t)) (if (i == 0) 1 else 0) else i      // see DESIGN.md: schedules left behind
    val where = if (s.pools[live].left.contains(t)) 2 else live
    { pool: where, token: t, periods: n, amount: if (k_ % 16 == 0) dt - 1 else if (k_ % 16 == 1) dt else dt * (1 + k_ % 500) + x_ * 60 }
  }
  action doIncentivize = {
    nondet who = USERS.oneOf()
    nondet i1 = RND.oneOf()
    nondet t1 = RND.oneOf()
    nondet k1 = RND.oneOf()
    nondet n1 = RND.oneOf()
    nondet i2 = RND.oneOf()
    nondet t2 = RND.oneOf()
    nondet k2 = RND.oneOf()
    nondet n2 = RND.oneOf()
    nondet count_ = RND.oneOf()
    nondet funds_ = RND.oneOf()
    val a = fundOf(st, i1, t1, k1, n1, n2)
    val b = fundOf(st, i2, t2, k2, n2, n1)
    val c = fundOf(st, i1, t2 + 1, k1, n1, n2)
    val d = fundOf(st, i1, t1 + 5, k1, n1, n2)
    val items = pick([[a], [a], [a], [a, b], [a, c, d]], count_).select(f => not(st.pools[f.pool].left.contains(f.token)))
    val funds = if (funds_ % 12 == 0) pick(["short", "over", "extra", "nofee"], funds_ / 12) else "exact"
    perform(Incentivize({ who: who, items: items, funds: funds }))
  }
  action doRemove = {
    nondet k_ = RND.oneOf()
    nondet b_ = RND.oneOf()
    nondet to_ = RND.oneOf()
    nondet gap = Set(1, 60, 5000).oneOf()
    val live = [0, 1, 2].foldl([], (a, i) => a.concat(TOKENS.select(t => st.pools[i].ext.get(t).on).foldl([], (b, t) => b.append({ pool: i, token: t }))))
    val deep = live.select(x => st.pools[x.pool].slots.get(x.token).length() > 1)
    val c = if (live.length() == 0 or k_ % 11 == 0) { pool: k_ % 3, token: pick(TOKENS, k_ / 3) }
            else if (deep.length() > 0 and b_ % 4 < 2) pick(deep, k_) else pick(live, k_)
    // see DESIGN.md: removal in the second of somebody's claim, followed by a new schedule
    val m = Remove({ who: if (b_ % 9 == 0) "guard" else "owner", pool: c.pool, token: c.token, bypass: b_ % 5 == 0, to: pick(["dave", "dave", "carol"], to_) })
    if (TOUCHED(st, c.pool)) perform(Wait({ seconds: gap })) else perform(m)
  }
  /// somebody's position was brought up to date in the present second
  pure def TOUCHED(s: State, i: int): bool = USERS.exists(u => s.pools[i].pos.get(u).on and s.pools[i].pos.get(u).synced == s.now)

  /// A reward removed is offered again at once, and perhaps removed again in the same second
  action doAgain = {
    nondet who = USERS.oneOf()
    nondet k_ = RND.oneOf()
    nondet n_ = RND.oneOf()
    val none = { pool: 0, token: "gold", next: "" }
    val it = if (res != "ok") none else match msg {
      | Remove(x) => { pool: x.pool, token: x.token, next: "offer" }
      | Incentivize(x) => if (x.items.length() == 0) none else { pool: x.items[0].pool, token: x.items[0].token, next: if (x.items.length() == 1) "remove" else "" }
      | _ => none
    }
    if (it.next == "" or st.pools[it.pool].left.contains(it.token)) any { doRemove, doIncentivize }
    else if (it.next == "remove" and (TOUCHED(st, it.pool) or not(st.pools[it.pool].ext.get(it.token).on))) doClaim
    else if (it.next == "remove") perform(Remove({ who: "owner", pool: it.pool, token: it.token, bypass: false, to: pick(["dave", "carol"], k_) }))
    else {
      val n = pick([1, 1, 2, 5], n_)
      perform(Incentivize({ who: who, items: [{ pool: it.pool, token: it.token, amount: (endOf(st.now, n) - st.now) * (1 + k_ % 500) + n_ * 60, periods: n }], funds: "exact" }))
    }
  }

  action doFake = {
    nondet w_ = RND.oneOf()
    nondet k_ = RND.oneOf()
    nondet h_ = RND.oneOf()
    val how = pick(["setup", "offer", "deposit", "offer", "deposit", "withdraw", "claim"], h_)
    perform(Fake({ who: if (how == "setup") "owner" else pick(NAMES, w_), what: pick(["rogue", "sub", "twin", "person", "short", "coin", "cw20"], k_), how: how }))
  }
  action doWrong = {
    nondet c_ = RND.oneOf()
    nondet w_ = RND.oneOf()
    nondet k_ = RND.oneOf()
    nondet f = Set(true, false).oneOf()
    val what = pick(["", "receiver", "", "", "astro", "guardian", "vesting", "astro", if (f) "owner" else "controller", if (f) "factory" else ""], k_)
    val coin = denomOf(w_, c_)
    perform(Wrong({ who: "owner", what: if (what == "" and not(f) and wellFormed(coin)) "receiver" else what, coin: coin, fresh: f }))
  }
  action doSetup = {
    nondet w_ = RND.oneOf()
    nondet k_ = RND.oneOf()
    nondet a0 = (-5).to(100).oneOf()
    nondet a1 = 1.to(100).oneOf()
    nondet a2 = 1.to(100000).oneOf()
    val l = pick([[{ pool: 0, alloc: max2(a0, 0) }], [{ pool: 0, alloc: a1 }, { pool: 1, alloc: a2 }], [{ pool: 2, alloc: a2 }, { pool: 0, alloc: a1 }],
                  [{ pool: 0, alloc: a1 }, { pool: 1, alloc: a2 }, { pool: 2, alloc: a1 }], [{ pool: 1, alloc: a1 }, { pool: 2, alloc: a2 }],
                  [{ pool: 1, alloc: a1 }, { pool: 1, alloc: a2 }], []], k_)
    perform(Setup({ who: pick(["owner", "owner", "owner", "ctrl", "guard", "alice"], w_), pools: l }))
  }
  action doTps = {
    nondet w_ = RND.oneOf()
    nondet n_ = RND.oneOf()
    perform(SetTps({ who: pick(["owner", "owner", "owner", "ctrl", "alice"], w_), amount: pick([0, 0, 1, 7, 1000, 100000, 31], n_) }))
  }
  action doBlock = {
    nondet w_ = RND.oneOf()
    nondet k_ = RND.oneOf()
    nondet j_ = RND.oneOf()
    val some = pick([["gold"], ["silver"], ["uusd"], ["uatom"], ["tin"], ["gold", "uusd"], ["uusd", "uatom"], ["astro"], ["gold", "gold"], ["zinc", "silver"]], k_)
    val l = TOKENS.concat(["uusd", "uatom"]).select(t => st.blocked.contains(t))
    val out = if (l.length() == 0 or j_ % 9 == 0) ["lead"] else [pick(l, j_)]
    val mode = j_ % 4
    val stuck = l.length() > 2
    perform(Block({ who: pick(["owner", "owner", "guard", "alice"], w_), add: if (mode < 2 and not(stuck)) some else if (mode == 2) [pick(["tin", "gold", "zinc"], k_)] else [],
                    remove: if (mode < 2 and not(stuck)) [] else if (stuck) l else out }))
  }
  pure def config(who: str, g_: int): Msg =
    Config({ who: who, controller: pick(["", "ctrl"], g_), guardian: pick(["", "guard"], g_ / 2), fee: pick([NONE, 1, 5000], g_ / 4), feeDenom: pick(["ufee", "gold"], g_ / 12),
                           gas: pick([NONE, NONE, 400000, 1500000, 399999, 1500001], g_ / 24), astro: pick(["", "", "", "gold", "astro", "silver"], g_ / 5) })
  action doAdmin = {
    nondet w_ = RND.oneOf()
    nondet k_ = RND.oneOf()
    nondet g_ = RND.oneOf()
    val who = pick(["owner", "owner", "owner", "owner", "guard", "ctrl", "alice"], w_)
    val s0 = st
    val m = pick([Orphans({ who: who, limit: pick([NONE, NONE, 1, 2, 0, 11], g_), to: pick(["dave", "carol"], g_ / 6) }),
                  Orphans({ who: who, limit: pick([NONE, NONE, 1, 2, 0, 11], g_), to: "dave" }),
                  Deactivate({ who: who, pool: g_ % 3 }), config(who, g_),
                  DisableType({ who: who, stable: g_ % 2 == 0, off: g_ % 4 < 2 }),
                  DisableType({ who: who, stable: g_ % 2 == 0, off: g_ % 4 < 2 }),
                  DeactivateBlocked({ who: who }), DeactivateBlocked({ who: who }),
                  config(who, g_),
                  Deregister({ who: if (s0.theme == 4 or g_ % 3 == 0) who else "bob", pool: g_ / 3 % 3 })], k_)
    val found = TOKENS.select(t => s0.orphans.get(t) > 0).length() > 0
    // what there is a reason for: give orphans away, take pools of a disabled kind out, disable a kind that earns
    val off = POOLS.exists(i => isActive(s0, i) and s0.off.contains(POOL_STABLE[i]))
    val earning = not(off) and POOLS.filter(i => isActive(s0, i)).size() > 1 and s0.tps > 0 and s0.theme == 4
    perform(if (found and w_ % 4 == 0) Orphans({ who: who, limit: pick([NONE, 1, 2, 3, 0], g_), to: pick(["dave", "carol"], g_ / 6) })
            else if (off and w_ % 4 == 1) DeactivateBlocked({ who: who })
            else if (earning and w_ % 4 == 2) DisableType({ who: who, stable: g_ % 4 < 3, off: true })
            else m)
  }
  action doOrphans = {
    nondet w_ = RND.oneOf()
    nondet g_ = RND.oneOf()
    val s0 = st
    val found = TOKENS.select(t => s0.orphans.get(t) > 0).length()
    if (found == 0) doWait
    else perform(Orphans({ who: pick(["owner", "owner", "owner", "owner", "guard", "alice"], w_), limit: pick([NONE, 1, 1, 2, 3, 0, found, found - 1], g_), to: pick(["dave", "carol"], g_ / 8) }))
  }
  action doWait = {
    nondet sec_ = RND.oneOf()
    nondet n_ = RND.oneOf()
    val toEpoch = nextEpoch(st.now) - st.now
    val ends = [0, 1, 2].foldl([], (a, i) => a.concat(TOKENS.select(t => st.pools[i].ext.get(t).on).foldl([], (b, t) => b.append(st.pools[i].ext.get(t).next))))
    val toEnd = if (ends.length() == 0) 1 else max2(1, pick(ends, n_) - st.now)
    perform(Wait({ seconds: pick([1, 6, 3600, 86400, 86401, toEpoch, toEpoch - 1, toEpoch + 1, toEnd, toEnd, toEnd, toEnd + 1, toEnd - 1, toEnd / 2, 8 * 86400, 3 * WEEK, 30 * WEEK], sec_) }))
  }

  /// Tokens and kinds of pool are stopped and let go while pools that have them earn, or are about to
  action police = {
    nondet k_ = RND.oneOf()
    nondet g_ = RND.oneOf()
    nondet w_ = RND.oneOf()
    nondet a_ = 1.to(100).oneOf()
    nondet amount = 1000000.to(9000000).oneOf()
    val s0 = st
    val boss = pick(["owner", "owner", "owner", if (s0.guardian == "") "owner" else s0.guardian, "alice"], w_)
    val earning = [0, 1, 2].select(i => isActive(s0, i))
    val stopped = TOKENS.concat(["uusd", "uatom"]).select(t => s0.blocked.contains(t))
    val parts = ["gold", "uusd", "uatom", "silver"]
    val poolParts = parts.select(t => not(s0.blocked.contains(t)) and earning.select(i => POOL_ASSETS[i].contains(t)).length() > 0)
    val barred = [0, 1, 2].select(i => POOL_ASSETS[i].intersect(s0.blocked) != Set())
    val stuck = [0, 1, 2].select(i => s0.off.contains(POOL_STABLE[i]))
    val payable = TOKENS.select(t => s0.blocked.contains(t))
    val mode = k_ % 8
    if (mode == 0 and poolParts.length() > 0) perform(Block({ who: boss, add: [pick(poolParts, g_)], remove: if (g_ % 5 == 0 and stopped.length() > 0) [pick(stopped, g_ / 5)] else [] }))
    else if ((mode == 1 or stopped.length() > 2) and stopped.length() > 0) perform(Block({ who: boss, add: if (g_ % 7 == 0) [pick(stopped, g_ / 7)] else [], remove: [pick(stopped, g_ / 3)] }))
    else if (mode == 2) perform(Block({ who: boss, add: if (stopped.length() > 0 and g_ % 3 > 0) ["lead", pick(stopped, g_)] else [s0.astro], remove: [] }))
    else if (mode == 3 and barred.length() > 0) perform(Setup({ who: "owner", pools: [{ pool: pick(barred, g_), alloc: a_ }] }))
    else if (mode == 3 and stuck.length() > 0) perform(Setup({ who: "owner", pools: [{ pool: pick(stuck, g_), alloc: a_ }, { pool: (pick(stuck, g_) + 1) % 3, alloc: a_ }] }))
    else if (mode == 4) perform(Setup({ who: "owner", pools: [{ pool: g_ % 3, alloc: a_ }, { pool: (g_ + 1) % 3, alloc: 0 }] }))
    else if (mode == 5 and payable.length() > 0) perform(Incentivize({ who: "bob", items: [{ pool: g_ % 3, token: pick(payable, g_ / 3), periods: 1, amount: amount }], funds: "exact" }))
    else if (stuck.length() > 0 and earning.select(i => s0.off.contains(POOL_STABLE[i])).length() > 0) perform(DeactivateBlocked({ who: pick(NAMES, g_) }))
    else if (stuck.length() > 0) perform(DisableType({ who: "owner", stable: POOL_STABLE[pick(stuck, g_)], off: false }))
    else if (earning.length() > 0) perform(DisableType({ who: "owner", stable: POOL_STABLE[pick(earning, g_)], off: true }))
    else doSetup
  }

  action stake = any { doDeposit, doDeposit, doWithdraw, doClaim }
  action manage = any { doSetup, doTps, doBlock, doAdmin, doRemove, doRemove, doOrphans, any { doFake, doFake, doWrong } }
  action mixed = any { stake, stake, doIncentivize, manage, doWait, doWait }
  /// many rewards in few pools, next to nobody staking: rewards end together and orphans pile up
  action crowd = any { doIncentivize, doIncentivize, doIncentivize, doRemove, doWait, doWait, doAdmin, doOrphans, doDeposit, doWithdraw, doWithdraw }
  action govern = any { doSetup, police, police, any { doFake, doFake, doWrong }, doTps, doBlock, doAdmin, doAdmin, doDeposit, doClaim, doWait }
  action step =
    if (st.theme < 3) mixed
    else if (st.theme == 3) crowd
    else if (st.theme == 4) govern
    else any { stake, doIncentivize, doRemove, doAgain, doAgain, doWait, doClaim }
  /// emissions begin early in most behaviours
  action launch = {
    nondet a0 = 1.to(100).oneOf()
    nondet a1 = 1.to(100).oneOf()
    nondet n_ = RND.oneOf()
    if (st.tps == 0) perform(SetTps({ who: "owner", amount: pick([1, 7, 1000, 100000, 31, 10^9], n_) }))
    else if (open(st).length() == 0) stake
    else perform(Setup({ who: "owner", pools: if (n_ % 3 == 0) [{ pool: pick(open(st), n_ / 10), alloc: a0 }] else open(st).foldl([], (l, i) => l.append({ pool: i, alloc: if (i == 0) a0 else a1 * i })) }))
  }
  /// the pools that may get emissions
  pure def open(s: State): List[int] = [0, 1, 2].select(i => s.pools[i].registered and POOL_ASSETS[i].intersect(s.blocked) == Set() and not(s.off.contains(POOL_STABLE[i])))
  action go = if (Set(1, 2, 4).contains(st.theme) and (st.tps == 0 or POOLS.forall(i => not(isActive(st, i))))) any { launch, step } else step
  action policed = any { go, police }
  action doUpgrade = {
    nondet k_ = RND.oneOf()
    perform(Upgrade(release(k_, CONTRACT, RELEASES)))
  }
  action upgrades = any { go, go, go, doUpgrade }

  // ---- properties ---------------------------------------------------------------------------------------------

  /// Everything the contract still has to pay in a token: what stakers are owed, what schedules will give out, and orphans
  pure def debt(s: State, t: str): int = {
    POOLS.fold(s.orphans.get(t), (acc, i) => {
      val p = s.pools[i]
      val r = p.ext.get(t)
      val users = USERS.fold(0, (a, u) => if (p.pos.get(u).on) a + owed(p, p.pos.get(u)).ext.get(t) else a)
      val upcoming = p.slots.get(t).select(e => e.end > r.next)
      val rest = if (r.on) upcoming.foldl({ sum: r.rps * (r.next - p.last), from: r.next }, (a, e) => { sum: a.sum + e.rps * (e.end - a.from), from: e.end }).sum + r.orphaned else 0
      acc + users + rest / E18
    })
  }
  val solvent = TOKEN_SET.forall(t => st.bal.get(t).get("inc") >= debt(st, t))
  val staked = POOLS.forall(i => st.pools[i].total == USERS.fold(0, (a, u) => a + st.pools[i].pos.get(u).amount))
  val activeAreFine = POOLS.forall(i => isActive(st, i) implies st.pools[i].registered and st.pools[i].protocol.on)
  val nonNegative = TOKEN_SET.forall(t => HOLDERS.forall(h => st.bal.get(t).get(h) >= 0)) and POOLS.forall(i => USERS.forall(u => st.pools[i].lp.get(u) >= 0))
  val fewRewards = POOLS.forall(i => countExt(st.pools[i]) <= MAX_REWARD_TOKENS + 1)
  /// the pools together never emit more than the rate set
  val emissions = st.pools.foldl(0, (a, p) => a + p.protocol.rps) <= st.tps * E18
  val Safe = solvent and staked and activeAreFine and nonNegative and fewRewards and emissions
}
