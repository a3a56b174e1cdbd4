// -*- mode: Bluespec; -*-
/// The concentrated pool's curve, solved as the pool solves it: 256-bit fixed-point numbers with 18 decimals, rounded
/// towards zero after every operation. BAD is what an operation without a result gives (overflow, division by zero, a
/// difference below zero where none is allowed, a solver that does not settle).
module pclcurve {
  import math.* from "./math"

  pure val BAD = 2^300
  pure val TOP = 2^256
  pure val TWO = 2 * E18
  pure val FOUR = 4 * E18
  pure val PADDING = 1000000000000000042420637374017961984   // 1e36 as the code has it: through a float
  pure val TWAP = 999999999999999983222784                   // 1e24, likewise
  pure val TOL = 10^13                     // 1e-5
  pure val HALF = E18 / 2
  pure val ROUNDS = range(0, 64)

  pure def bounded(r: int): int = if (r >= TOP or r <= -TOP) BAD else r
  pure def add(a: int, b: int): int = if (a == BAD or b == BAD) BAD else bounded(a + b)
  pure def dif(a: int, b: int): int = if (a == BAD or b == BAD) BAD else bounded(a - b)
  pure def mul(a: int, b: int): int = if (a == BAD or b == BAD) BAD else bounded(a * b / E18)
  pure def div(a: int, b: int): int = if (a == BAD or b == BAD or b == 0) BAD else bounded(a * E18 / b)
  /// a - b, which must not be negative
  pure def sub(a: int, b: int): int = if (a == BAD or b == BAD or a < b) BAD else a - b
  /// a - b, or nothing
  pure def over(a: int, b: int): int = if (a == BAD or b == BAD) BAD else satSub(a, b)
  pure def apart(a: int, b: int): int = if (a == BAD or b == BAD) BAD else if (a > b) a - b else b - a
  pure def sq(a: int): int = mul(a, a)
  pure def sqrt(a: int): int = if (a == BAD or a < 0 or a * E18 >= TOP) BAD else isqrt(a * E18)
  pure def solved(x: int): bool = x != BAD

  pure def product(x: int, y: int): int = mul(mul(x, y), FOUR)

  /// the curve's equation; zero on the curve
  pure def residual(d: int, x: int, y: int, a: int, gamma: int): int = {
    val xy = mul(x, y)
    val d2 = sq(d)
    val p = mul(xy, FOUR)
    val k = div(mul(mul(a, sq(gamma)), p), mul(sq(dif(gamma + E18, div(p, d2))), d2))
    dif(dif(add(mul(mul(d, add(x, y)), k), xy), mul(k, d2)), div(d2, FOUR))
  }
  /// its slope in d
  pure def slopeD(d: int, x: int, y: int, a: int, gamma: int): int = {
    val ag = mul(a, sq(gamma))
    val d2 = sq(d)
    val p = product(x, y)
    val k0 = div(p, d2)
    val k0d = mul(-TWO, p)
    val g = dif(gamma + E18, k0)
    val k = div(mul(ag, k0), sq(g))
    val num = mul(mul(mul(PADDING, ag), k0d), add(gamma + E18, k0))
    val den = mul(mul(mul(mul(PADDING, mul(d2, d)), g), g), g)
    val s1 = add(div(mul(mul(num, d), add(x, y)), den), mul(k, add(x, y)))
    dif(dif(dif(s1, div(mul(num, d2), den)), mul(mul(TWO, k), d)), div(d, TWO))
  }
  /// its slope in one balance, the other being r
  pure def slopeX(d: int, x: int, y: int, r: int, a: int, gamma: int): int = {
    val d2 = sq(d)
    val k0 = div(product(x, y), d2)
    val g = dif(gamma + E18, k0)
    val g2 = sq(g)
    val ag = mul(a, sq(gamma))
    val k = div(mul(ag, k0), g2)
    val kx = div(mul(mul(mul(mul(r, FOUR), ag), add(gamma + E18, k0)), PADDING), mul(mul(mul(PADDING, d2), g), g2))
    dif(add(mul(add(mul(kx, add(x, y)), k), d), r), mul(kx, d2))
  }
  pure def nonNegative(x: int): int = if (x == BAD or x < 0) BAD else x

  type Root = { x: int, done: bool }
  pure def finish(r: Root): int = if (r.done) nonNegative(r.x) else BAD
  /// The invariant of balances x, y (the second at the scale price)
  pure def invariantOf(x: int, y: int, a: int, gamma: int): int =
    if (x == BAD or y == BAD) BAD
    else finish(ROUNDS.foldl({ x: mul(TWO, sqrt(mul(x, y))), done: false }, (acc, _) => {
      if (acc.done or acc.x == BAD) acc
      else {
        val d = dif(acc.x, div(residual(acc.x, x, y, a, gamma), slopeD(acc.x, x, y, a, gamma)))
        { x: d, done: d != BAD and apart(d, acc.x) <= TOL }
      }
    }))
  /// The balance that goes with r on the curve of invariant d
  pure def partner(r: int, d: int, a: int, gamma: int): int =
    if (r == BAD or d == BAD) BAD
    else finish(ROUNDS.foldl({ x: div(sq(d), mul(FOUR, r)), done: false }, (acc, _) => {
      if (acc.done or acc.x == BAD) acc
      else {
        val y = dif(acc.x, div(residual(d, acc.x, r, a, gamma), slopeX(d, acc.x, r, r, a, gamma)))
        { x: y, done: y != BAD and apart(y, acc.x) <= TOL }
      }
    }))
  /// The pool's worth at its scale price: the value of one share times the shares
  pure def worth(d: int, scale: int): int = sqrt(mul(div(d, TWO), div(d, mul(TWO, scale))))

  /// Between mid fee (balanced) and out fee
  pure def feeOf(x: int, y: int, mid: int, out: int, feeGamma: int): int = {
    val k = div(mul(mul(x, y), FOUR), sq(add(x, y)))
    val g = div(feeGamma, sub(add(feeGamma, E18), k))
    val w = if (g <= 10^15) 0 else g
    add(mul(w, mid), mul(sub(E18, w), out))
  }

  /// base^n by squaring
  pure def power(base: int, n: int): int =
    if (n == 0) E18
    else {
      val r = range(0, 32).foldl({ x: base, y: E18, n: n }, (acc, _) =>
        if (acc.n <= 1) acc
        else if (acc.n % 2 == 0) { x: sq(acc.x), y: acc.y, n: acc.n / 2 }
        else { x: sq(acc.x), y: mul(acc.x, acc.y), n: (acc.n - 1) / 2 })
      mul(r.x, r.y)
    }
  /// 0.5^p
  pure def halving(p: int): int = {
    val whole = p / E18
    val frac = p % E18
    val r = range(1, 64).foldl({ term: E18, sum: E18, done: false }, (acc, k) => {
      if (acc.done) acc
      else {
        val c = apart(frac, (k - 1) * E18)
        val t = div(mul(mul(acc.term, c), HALF), k * E18)
        { term: t, sum: sub(acc.sum, t), done: t < 10^8 }
      }
    })
    if (whole >= 2^128 or not(r.done)) BAD else mul(power(HALF, whole % 2^32), r.sum)
  }
}
