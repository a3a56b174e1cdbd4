// -*- mode: Bluespec; -*-
/// The ring of a fixed number of slots that pools keep their trade observations in.
module buffer {
  import math.* from "./math"

  type Msg =
      Init({ cap: int })
      // one session: values pushed one by one, all at once, or each stored at once; then stored, or dropped
    | Write({ vals: List[int], how: str, commit: bool })
    | Clear
    | Created
  type State = { cap: int, head: int, slots: List[int],        // cap 0: there is no ring yet; slot -1: empty
                 log: List[int] }                              // everything stored since the ring was last cleared
  type Probe = {
    head: int, cap: int, every: List[int], last: int, single: int, exists: bool, index: int,
    ask: { at: List[int], stop: bool }, answer: List[int], why: str,
    // what a session sees before it is stored
    mid: { head: int, last: int } }

  var st: State
  var msg: Msg
  var res: str
  var probe: Probe

  type Next = { s: State, why: str }
  pure def refuse(s: State, why: str): Next = { s: s, why: why }
  pure def accept(s: State): Next = { s: s, why: "ok" }

  pure def store(s: State, v: int): State =
    { ...s, slots: s.slots.replaceAt(s.head, v), head: (s.head + 1) % s.cap, log: s.log.append(v) }
  pure def exec(s: State, m: Msg): Next = match m {
    | Init(x) =>
        if (s.cap > 0) refuse(s, "initialized")
        else accept({ ...s, cap: x.cap, slots: range(0, x.cap).foldl([], (l, _) => l.append(-1)) })
    | Write(x) =>
        if (s.cap == 0) refuse(s, "not_initialized")
        else if (not(x.commit) and x.how != "instant") accept(s)
        else accept(x.vals.foldl(s, (t, v) => store(t, v)))
    | Clear =>
        if (s.cap == 0) refuse(s, "not_initialized")
        else accept({ ...s, slots: range(0, s.cap).foldl([], (l, _) => l.append(-1)), log: [] })
    | Created => accept(s)
  }

  type Read = { l: List[int], why: str, done: bool }
  pure def read(s: State, at: List[int], stop: bool): Read =
    at.foldl({ l: [], why: "ok", done: false }, (r, i) =>
      if (r.done) r
      else if (i >= s.cap) { l: [], why: "ahead", done: true }
      else if (s.slots[i] >= 0) { ...r, l: r.l.append(s.slots[i]) }
      else if (stop) { ...r, done: true }
      else { l: [], why: "empty", done: true })

  pure def look(was: State, s: State, m: Msg, index: int, at: List[int], stop: bool): Probe =
    if (s.cap == 0)
      { head: -1, cap: 0, every: [], last: -1, single: -1, exists: false, index: index, ask: { at: at, stop: stop }, answer: [],
        why: "not_initialized", mid: { head: -1, last: -1 } }
    else {
      val r = read(s, at, stop)
      val n = match m { | Write(x) => if (x.how == "instant") 0 else x.vals.length() | Init(_) => 0 | Clear => 0 | Created => 0 }
      val seen = if (was.cap == 0) s else if (n > 0) was else s
      { head: s.head, cap: s.cap, every: read(s, range(0, s.cap), true).l, last: s.slots[(s.head + s.cap - 1) % s.cap],
        single: s.slots[index % s.cap], exists: s.slots[index % s.cap] >= 0, index: index, ask: { at: at, stop: stop },
        answer: r.l, why: r.why,
        // the session's head has moved on, but what it reads is what is stored
        mid: { head: (seen.head + n) % s.cap, last: seen.slots[((seen.head + n) % s.cap + s.cap - 1) % s.cap] } }
    }

  // ---- behaviours ---------------------------------------------------------------------------------------------

  action perform(m: Msg): bool = {
    nondet i = 0.to(40).oneOf()
    nondet a = 0.to(9).oneOf()
    nondet b = 0.to(9).oneOf()
    nondet c_ = RND.oneOf()
    nondet stop = Set(true, false).oneOf()
    val r = exec(st, m)
    val at = if (r.s.cap == 0) [] else pick([[a], [a, b], [b, a, b], [a % r.s.cap, b % r.s.cap, a % r.s.cap], [r.s.cap - 1, a % r.s.cap], [r.s.cap]], c_)
    all { st' = r.s, msg' = m, res' = r.why, probe' = look(st, r.s, m, i, at, stop) }
  }
  action init = {
    val s: State = { cap: 0, head: 0, slots: [], log: [] }
    all { st' = s, msg' = Created, res' = "ok", probe' = look(s, s, Created, 0, [], true) }
  }
  action go = {
    nondet k_ = RND.oneOf()
    nondet cap = 1.to(9).oneOf()
    nondet n = 0.to(13).oneOf()
    nondet v = 0.to(1000).oneOf()
    nondet how = Set("push", "many", "instant").oneOf()
    nondet commit_ = RND.oneOf()
    val k = pick([0, 1, 1, 1, 1, 1, 1, 1, 1, 2], k_)
    val few = if (v % 3 == 0) n else n % 4
    if (k == 0 or (st.cap == 0 and k_ % 3 > 0)) perform(Init({ cap: cap }))
    else if (k == 1) perform(Write({ vals: range(0, few).foldl([], (l, i) => l.append(v + i)), how: how, commit: pick([true, true, true, false], commit_) }))
    else perform(Clear)
  }

  /// whatever its capacity, the ring holds the latest values stored, newest last
  val Latest = st.cap == 0 or range(0, min2(st.cap, st.log.length())).foldl(true, (b, k) =>
    b and st.slots[(st.head - 1 - k + st.cap) % st.cap] == st.log[st.log.length() - 1 - k])
  /// and nothing else
  val NothingElse = st.cap == 0 or st.slots.select(v => v >= 0).length() == min2(st.cap, st.log.length())
  val Safe = Latest and NothingElse
}
