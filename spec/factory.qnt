// -*- mode: Bluespec; -*-
/// The factory: who may create which pairs, the registry of pairs by their assets, and the settings pairs read from it.
module factory {
  import math.* from "./math"
  import upgrades.* from "./upgrades"

  type Kind = { code: str, total: int, maker: int, disabled: bool, genOff: bool, permissioned: bool }
  type Pair = { n: int, key: List[int], assets: List[int], kind: str, admin: str, fee: int }
  type Config = { owner: str, fee: str, generator: str, token: int, whitelist: int, registry: str }
  type Tracker = { on: bool, good: bool, tf: str }

  type Msg =
      CreatePair({ who: str, kind: str, assets: List[int], params: str, fee: int })
    | Deregister({ who: str, assets: List[int] })
    | UpdateKind({ who: str, kind: str, cfg: Kind })
    | UpdateConfig({ who: str, fee: str, generator: str, token: int, whitelist: int, registry: str })   // "" or NONE: not given
    | UpdateTracker({ who: str, good: bool, tf: str })
    | Handover({ who: str, next: str })
    | Reward({ pairs: List[int] })          // the incentives contract gives emissions to these pairs, by number
    | Another({ kinds: List[str], total: int, maker: int, owner: str, tf: str, off: bool })   // instantiate one more factory
    | Upgrade({ was: Release, tracker: Tracker })                                    // tracker: not given where off
    | Created
  type State = { cfg: Config, tracker: Tracker, kinds: str -> Kind, pairs: List[Pair], made: int, active: Set[int] }
  type Probe = { assets: List[int], found: int, after: List[int], limit: int, page: List[int], kind: str, fee: { who: str, total: int, maker: int }, blocked: Set[str] }

  var st: State
  var msg: Msg
  var res: str
  var probe: Probe

  /// the assets by number, in byte order of their names: 0,1 cw20 tokens; 2 a coin with unknown decimals; 3 an address without a
  /// contract; 4.. coins. No name starts with another, apart from 4 and 5 (for the collision below). 99 is not a valid name.
  pure val ORDINARY = [0, 1, 2, 3, 6, 7, 8]
  pure val BAD = 99
  pure val MANY = ORDINARY.concat([11, 12, 13, 14, 15, 16])
  pure def isCoin(a: int): bool = a == 2 or a >= 4
  pure def known(a: int): bool = a == 0 or a == 1 or a >= 4

  type Next = { s: State, why: str }
  pure def refuse(s: State, why: str): Next = { s: s, why: why }
  pure def accept(s: State): Next = { s: s, why: "ok" }

  pure def distinct(l: List[int]): bool = l.foldl(Set(), (s, x) => s.union(Set(x))).size() == l.length()
  pure def insert(l: List[int], x: int): List[int] = l.select(y => y <= x).append(x).concat(l.select(y => y > x))
  pure def sorted(l: List[int]): List[int] = l.foldl([], (r, x) => insert(r, x))
  /// lexicographic, shorter first
  pure def before(a: List[int], b: List[int]): bool = {
    val n = min2(a.length(), b.length())
    val r = range(0, n).foldl(0, (k, i) => if (k != 0) k else if (a[i] < b[i]) -1 else if (a[i] > b[i]) 1 else 0)
    r < 0 or (r == 0 and a.length() < b.length())
  }
  pure def badAssets(l: List[int]): bool = not(distinct(l)) or l.foldl(false, (b, x) => b or x == BAD)
  pure def find(s: State, l: List[int]): List[Pair] = s.pairs.select(p => p.key == sorted(l))
  pure def place(l: List[Pair], p: Pair): List[Pair] = l.select(q => before(q.key, p.key)).append(p).concat(l.select(q => not(before(q.key, p.key))))

  /// what the pair contract of that code asks for
  pure def fits(s: State, code: str, assets: List[int], params: str): bool = {
    val decimals = assets.foldl(true, (b, a) => b and known(a) and (not(isCoin(a)) or s.cfg.registry == "registry"))
    if (code == "pair")
      assets.length() == 2 and (params == "none" or params == "notrack" or (params == "track" and s.tracker.on and s.tracker.good and s.tracker.tf != "bad"))
    else if (code == "stable") assets.length() == 2 and params == "amp" and decimals
    else if (code == "transmuter") assets.length() >= 2 and assets.length() <= 5 and assets.foldl(true, (b, a) => b and isCoin(a)) and decimals
    else false
  }
  pure def create(s: State, who: str, kind: str, assets: List[int], params: str, fee: int): Next = {
    val k = s.kinds.get(kind)
    if (k.permissioned and who != s.cfg.owner) refuse(s, "unauthorized")
    else if (k.disabled) refuse(s, "disabled")
    else if (not(fits(s, k.code, assets, params))) refuse(s, "pair_refuses")
    else accept({ ...s, made: s.made + 1,
      pairs: place(s.pairs, { n: s.made, key: sorted(assets), assets: assets, kind: if (k.code == "transmuter") "trans" else kind, admin: s.cfg.owner, fee: fee }) })
  }
  pure def deregister(s: State, p: Pair): Next = {
    val s1 = { ...s, pairs: s.pairs.select(q => q.n != p.n) }
    if (s.cfg.generator == "") accept(s1)
    else if (s.cfg.generator == "incentives") accept({ ...s1, active: s.active.exclude(Set(p.n)) })
    else refuse(s, "generator_fails")
  }
  pure def or_(a: str, b: str): str = if (a == "") b else a
  pure def update(s: State, c: { who: str, fee: str, generator: str, token: int, whitelist: int, registry: str }): Next = {
    val o = s.cfg
    if (c.who != o.owner) refuse(s, "unauthorized")
    else if (c.fee == "bad" or c.generator == "bad" or c.registry == "bad") refuse(s, "bad_address")
    else accept({ ...s, cfg: { owner: o.owner, fee: or_(c.fee, o.fee), generator: or_(c.generator, o.generator), token: if (c.token == NONE) o.token else c.token,
                               whitelist: if (c.whitelist == NONE) o.whitelist else c.whitelist, registry: or_(c.registry, o.registry) } })
  }
  pure def feesOk(total: int, maker: int): bool = total <= 10000 and maker <= 10000
  pure def offEmissions(s: State): Set[str] = s.kinds.keys().filter(k => s.kinds.get(k).disabled or s.kinds.get(k).genOff)
  pure def reward(s: State, l: List[int]): Next = {
    val ps = s.pairs.select(p => l.foldl(false, (b, n) => b or n == p.n))
    if (not(distinct(l))) refuse(s, "duplicate")
    else if (ps.length() != l.length()) refuse(s, "not_registered")
    else if (ps.foldl(false, (b, p) => b or offEmissions(s).contains(p.kind))) refuse(s, "blocked_kind")
    else accept({ ...s, active: l.foldl(Set(), (a, n) => a.union(Set(n))) })
  }
  pure val CONTRACT = "astroport-factory"
  pure val RELEASES = ["1.3.1", "1.5.1", "1.6.0", "1.7.0", "1.8.0", "1.8.1"]
  /// The first releases had no tracker and let anybody create pairs; the last ones want no tracker, having had their chance.
  pure def upgrade(s: State, was: Release, t: Tracker): Next = {
    val old = Set("1.3.1", "1.5.1", "1.6.0").contains(was.version)
    val open = s.kinds.keys().mapBy(k => { ...s.kinds.get(k), permissioned: false })
    if (not(knows(was, CONTRACT, RELEASES))) refuse(s, "release")
    else if (not(old) and was.version != "1.7.0") accept(s)
    else if (t.on and t.tf == "bad") refuse(s, "bad_address")
    else accept({ ...s, kinds: if (old) open else s.kinds, tracker: if (t.on) t else if (old) { on: false, good: false, tf: "" } else s.tracker })
  }
  pure def exec(s: State, m: Msg): Next = match m {
    | Upgrade(x) => upgrade(s, x.was, x.tracker)
    | CreatePair(x) =>
        if (badAssets(x.assets)) refuse(s, "bad_assets")
        else if (find(s, x.assets).length() > 0) refuse(s, "exists")
        else if (not(s.kinds.keys().contains(x.kind))) refuse(s, "unknown_kind")
        else create(s, x.who, x.kind, x.assets, x.params, x.fee)
    | Deregister(x) =>
        if (badAssets(x.assets)) refuse(s, "bad_assets")
        else if (x.who != s.cfg.owner) refuse(s, "unauthorized")
        else if (find(s, x.assets).length() == 0) refuse(s, "not_registered")
        else deregister(s, find(s, x.assets)[0])
    | UpdateKind(x) =>
        if (x.who != s.cfg.owner) refuse(s, "unauthorized")
        else if (not(feesOk(x.cfg.total, x.cfg.maker))) refuse(s, "bad_fee")
        else accept({ ...s, kinds: s.kinds.put(x.kind, x.cfg) })
    | UpdateConfig(x) => update(s, x)
    | UpdateTracker(x) =>
        if (x.who != s.cfg.owner) refuse(s, "unauthorized")
        else if (s.tracker.on) accept({ ...s, tracker: { on: true, good: x.good, tf: s.tracker.tf } })
        else if (x.tf == "") refuse(s, "no_module")
        else accept({ ...s, tracker: { on: true, good: x.good, tf: x.tf } })
    | Handover(x) =>
        if (x.who != s.cfg.owner or x.next == x.who) refuse(s, "unauthorized")
        else accept({ ...s, cfg: { ...s.cfg, owner: x.next } })
    | Reward(x) => reward(s, x.pairs)
    | Another(x) =>
        if (x.owner == "bad" or x.tf == "bad") refuse(s, "bad_address")
        else if (x.kinds.foldl(Set(), (a, k) => a.union(Set(k))).size() != x.kinds.length()) refuse(s, "duplicate_kind")
        else if (x.kinds.length() > 0 and not(feesOk(x.total, x.maker))) refuse(s, "bad_fee")
        else accept(s)
    | Created => accept(s)
  }
  pure def firsts(l: List[Pair], n: int): List[int] = l.slice(0, min2(n, l.length())).foldl([], (r, p) => r.append(p.n))
  pure def feeInfo(s: State, kind: str): { who: str, total: int, maker: int } =
    if (s.kinds.keys().contains(kind)) { who: s.cfg.fee, total: s.kinds.get(kind).total, maker: s.kinds.get(kind).maker }
    else { who: "none", total: NONE, maker: NONE }
  pure def look(s: State, assets: List[int], after: List[int], limit: int, kind: str): Probe = {
    val rest = if (after.length() == 0) s.pairs else s.pairs.select(p => before(sorted(after), p.key))
    { assets: assets, found: if (find(s, assets).length() > 0) find(s, assets)[0].n else NONE,
      after: after, limit: limit, page: firsts(rest, if (limit == NONE) 10 else min2(limit, 30)), kind: kind, fee: feeInfo(s, kind), blocked: offEmissions(s) }
  }

  // ---- behaviours ---------------------------------------------------------------------------------------------

  pure val NAMES = ["owner", "owner", "maker", "carol", "alice", "bob"]
  pure val KINDS = ["xyk", "xyk", "stable", "trans", "extra"]
  pure def caller(s: State, k_: int): str = if (k_ % 5 == 0) pick(NAMES, k_ / 5) else s.cfg.owner
  /// k numbers from RND make an asset list
  pure def assetsOf(a_: int, b_: int, c_: int, n_: int): List[int] = {
    val l = [pick(ORDINARY, a_), pick(ORDINARY, b_)]
    if (n_ % 40 == 0) [pick(ORDINARY, a_)]
    else if (n_ % 40 == 1) [pick(ORDINARY, a_), BAD]
    else if (n_ % 40 == 2) []
    else if (n_ % 5 == 3) l.append(pick(ORDINARY, c_))
    else if (n_ % 40 == 4) [2, 6, 7, 8, 0, 1]
    else if (n_ % 40 == 5) [8, 7, 6, pick([3, 2, 0], c_)]
    else l
  }
  pure def someAssets(s: State, a_: int, b_: int, c_: int, n_: int): List[int] =
    if (s.pairs.length() > 0 and n_ % 3 > 0) { val p = pick(s.pairs, a_)
                                               if (b_ % 2 == 0) p.key else p.assets }
    else assetsOf(a_, b_, c_, n_ / 3)

  action perform(m: Msg): bool = {
    nondet a_ = RND.oneOf()
    nondet b_ = RND.oneOf()
    nondet c_ = RND.oneOf()
    nondet n_ = RND.oneOf()
    nondet l_ = RND.oneOf()
    nondet k = ["xyk", "stable", "trans", "extra", "other"].indices().oneOf()
    val r = exec(st, m)
    val after = if (l_ % 3 == 0) [] else someAssets(r.s, b_, c_, a_, n_ / 7)
    all {
      st' = r.s, msg' = m, res' = r.why,
      probe' = look(r.s, someAssets(r.s, a_, b_, c_, n_).select(x => x != BAD), after.select(x => x != BAD), pick([NONE, NONE, 0, 1, 2, 5, 10, 31, 40], l_ / 3), ["xyk", "stable", "trans", "extra", "other"][k])
    }
  }
  pure def kind(code: str, total: int, maker: int): Kind = { code: code, total: total, maker: maker, disabled: false, genOff: false, permissioned: false }
  pure def fresh(fee: str, generator: str, tracker: bool, permissioned: bool): State =
    { cfg: { owner: "owner", fee: fee, generator: generator, token: 1, whitelist: 1, registry: "registry" },
      tracker: if (tracker) { on: true, good: true, tf: "tf" } else { on: false, good: false, tf: "" },
      kinds: Map("xyk" -> kind("pair", 30, 3333), "stable" -> kind("stable", 5, 5000), "trans" -> { ...kind("transmuter", 0, 0), permissioned: permissioned }),
      pairs: [], made: 0, active: Set() }
  action init = {
    nondet k_ = RND.oneOf()
    val s = fresh(if (k_ % 2 == 0) "maker" else "", if (k_ / 12 % 5 == 0) "" else "incentives", k_ / 2 % 3 > 0, k_ / 6 % 2 == 0)
    all { st' = s, msg' = Created, res' = "ok", probe' = look(s, [6, 7], [], NONE, "xyk") }
  }
  action initScript = {
    val s = fresh("", "incentives", true, false)
    all { st' = s, msg' = Created, res' = "ok", probe' = look(s, [6, 7], [], NONE, "xyk") }
  }
  pure def script(n: int): Msg =
    if (n == 0) CreatePair({ who: "alice", kind: "xyk", assets: [4, 10], params: "none", fee: 0 })
    else CreatePair({ who: "bob", kind: "xyk", assets: [5, 9], params: "none", fee: 0 })
  /// two different pairs whose asset names, one after the other, spell the same
  action collision = {
    val m = if (msg == Created) script(0) else script(1)
    val r = exec(st, m)
    all { st' = r.s, msg' = m, res' = r.why, probe' = look(r.s, [6, 7], [], NONE, "xyk") }
  }
  action doCreate = {
    nondet w_ = RND.oneOf()
    nondet k_ = RND.oneOf()
    nondet a_ = RND.oneOf()
    nondet b_ = RND.oneOf()
    nondet c_ = RND.oneOf()
    nondet n_ = RND.oneOf()
    nondet p_ = RND.oneOf()
    nondet f_ = RND.oneOf()
    val k = if (k_ % 30 == 0) "other" else if (k_ % 30 < 5) pick(KINDS, k_) else pick(KINDS.select(x => st.kinds.keys().contains(x)), k_)
    val p = if (p_ % 8 == 0) pick(["none", "amp", "amp0", "track", "junk", "empty"], p_ / 8)
            else if (k == "stable") "amp" else if (k == "xyk") pick(["none", "none", "track", "notrack"], p_) else "none"
    val assets = if (k == "trans" and n_ % 8 > 0) pick([[6, 7], [7, 6, 8], [8, 6], [2, 6], [8, 7], [6, 7, 8]], n_ / 8)
                 else if (n_ % 8 > 2) [pick([0, 1, 3, 6, 7, 8], a_), pick([1, 0, 2, 6, 8, 7], b_ + (a_ % 5))] else assetsOf(a_, b_, c_, n_)
    perform(CreatePair({ who: if (w_ % 2 == 0) caller(st, w_ / 2) else pick(["alice", "bob"], w_), kind: k, assets: assets, params: p, fee: if (f_ % 6 == 0) f_ else 0 }))
  }
  action doMany = {
    nondet a_ = RND.oneOf()
    nondet b_ = RND.oneOf()
    perform(CreatePair({ who: "owner", kind: "xyk", assets: [pick(MANY, a_), pick(MANY, b_)], params: "none", fee: 0 }))
  }
  /// a long registry, to turn its pages
  action many = any { doMany, doMany, doMany, doMany, doMany, doMany, doMany, doMany, doMany, doDeregister }
  action doDeregister = {
    nondet w_ = RND.oneOf()
    nondet a_ = RND.oneOf()
    nondet b_ = RND.oneOf()
    nondet c_ = RND.oneOf()
    nondet n_ = RND.oneOf()
    val paid = st.pairs.select(p => st.active.contains(p.n))
    val l = if (c_ % 3 > 0 and paid.length() > 0) pick(paid, a_).key.foldl([], (r, x) => if (b_ % 2 == 0) r.append(x) else [x].concat(r))
            else someAssets(st, a_, b_, c_, if (n_ % 3 == 0 and n_ % 4 > 0) n_ + 1 else n_)
    perform(Deregister({ who: caller(st, w_), assets: l }))
  }
  action doKind = {
    nondet w_ = RND.oneOf()
    nondet k_ = RND.oneOf()
    nondet t_ = RND.oneOf()
    nondet m_ = RND.oneOf()
    nondet b_ = RND.oneOf()
    val k = pick(KINDS, k_)
    val code = if (b_ % 7 == 0) pick(["pair", "stable", "transmuter", "missing"], b_ / 7) else if (k == "stable") "stable" else if (k == "trans") "transmuter" else "pair"
    perform(UpdateKind({ who: caller(st, w_), kind: k, cfg: { code: code, total: pick([0, 30, 100, 10000, 10001, 65535], t_), maker: pick([0, 3333, 10000, 5000, 2500, 10001], m_),
      disabled: b_ / 30 % 4 == 0, genOff: b_ / 120 % 4 == 0, permissioned: b_ / 480 % 4 == 0 } }))
  }
  action doConfig = {
    nondet w_ = RND.oneOf()
    nondet f_ = RND.oneOf()
    nondet g_ = RND.oneOf()
    nondet t_ = RND.oneOf()
    nondet r_ = RND.oneOf()
    perform(UpdateConfig({ who: caller(st, w_), fee: pick(["", "", "maker", "carol", "alice", "bob", "bad"], f_), generator: pick(["", "", "incentives", "incentives", "", "incentives", "bob", "bad"], g_),
      token: pick([NONE, NONE, 1, 5], t_), whitelist: pick([NONE, 2, NONE, 7], t_ / 4), registry: pick(["", "", "registry", "registry", "", "registry", "registry", "carol", "bad"], r_) }))
  }
  action doRare = {
    nondet k_ = RND.oneOf()
    nondet w_ = RND.oneOf()
    nondet n_ = RND.oneOf()
    nondet a_ = RND.oneOf()
    if (k_ % 4 == 0) perform(UpdateTracker({ who: caller(st, w_), good: n_ % 4 > 0, tf: pick(["tf", "", "tf", "bad"], a_) }))
    else if (k_ % 4 == 1) perform(Handover({ who: caller(st, w_), next: pick(["owner", "alice", "bob"], n_) }))
    else if (k_ % 4 == 2) perform(Another({ kinds: pick([["xyk"], ["xyk", "stable"], ["trans", "trans"], [], ["xyk", "stable", "xyk"]], n_), total: pick([30, 10000, 10001, 0], w_), maker: pick([10000, 5000, 10000, 10001], a_),
                                            owner: if (k_ % 5 == 0) "bad" else "owner", tf: pick(["", "tf", "bad", ""], k_ / 4), off: n_ / 5 % 3 == 0 }))
    else perform(Reward({ pairs: [w_ % 4, w_ / 4 % 4] }))
  }
  action doReward = {
    nondet a_ = RND.oneOf()
    nondet b_ = RND.oneOf()
    val l = st.pairs
    if (l.length() == 0) perform(Reward({ pairs: [] }))
    else if (b_ % 3 == 0) perform(Reward({ pairs: [pick(l, a_).n] }))
    else perform(Reward({ pairs: [pick(l, a_).n, pick(l, b_ / 3).n] }))
  }
  action go = any { doCreate, doCreate, doCreate, doCreate, doCreate, doCreate, doCreate, doDeregister, doDeregister, doKind, doConfig, doRare, doReward, doReward }
  action doUpgrade = {
    nondet k_ = RND.oneOf()
    nondet t_ = RND.oneOf()
    val t = { on: true, good: t_ % 5 > 0, tf: pick(["tf", "tf", "tf", "bad"], t_ / 5) }
    perform(Upgrade({ was: release(k_, CONTRACT, RELEASES), tracker: if (t_ % 2 == 0) t else { on: false, good: false, tf: "" } }))
  }
  action upgrades = any { go, go, go, doUpgrade }

  // ---- properties ---------------------------------------------------------------------------------------------

  /// one pair per set of assets, listed in order
  val registry = and {
    st.pairs.indices().forall(i => i == 0 or before(st.pairs[i - 1].key, st.pairs[i].key)),
    st.kinds.keys().forall(k => feesOk(st.kinds.get(k).total, st.kinds.get(k).maker)),
    st.pairs.foldl(true, (b, p) => b and p.n < st.made)
  }
  val Safe = registry
}
