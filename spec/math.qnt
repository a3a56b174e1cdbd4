// -*- mode: Bluespec; -*-
/// The fixed-point arithmetic of the contracts, on unbounded integers.
/// A Decimal is its number of 1e-18 units ("atomics"); every operation rounds down, as the contracts' do.
module math {
  pure val E18: int = 10^18
  pure val NONE: int = -1

  pure def min2(a: int, b: int): int = if (a < b) a else b
  pure def max2(a: int, b: int): int = if (a > b) a else b
  pure def satSub(a: int, b: int): int = if (a > b) a - b else 0

  /// a weighted choice: `k` drawn from RND picks an element, repeated elements are likelier
  pure val RND = 0.to(9999)
  pure def pick(l: List[a], k: int): a = l[k % l.length()]

  /// Decimal::from_ratio(n, d)
  pure def ratio(n: int, d: int): int = n * E18 / d
  /// integer * Decimal
  pure def mulDec(n: int, dec: int): int = n * dec / E18
  /// Decimal * Decimal
  pure def decMul(a: int, b: int): int = a * b / E18
  /// Decimal / Decimal
  pure def decDiv(a: int, b: int): int = a * E18 / b
  /// integer.mul_ceil(Decimal)
  pure def mulCeil(n: int, dec: int): int = (n * dec + E18 - 1) / E18
  pure def ceilDiv(n: int, d: int): int = (n + d - 1) / d

  /// the largest r with r*r <= n (bisection over the bits of the root)
  pure def isqrt(n: int): int =
    range(0, 130).foldl({ r: 0, done: false }, (acc, k) => {
      val bit = 2^(129 - k)
      val c = acc.r + bit
      if (c * c <= n) { r: c, done: false } else acc
    }).r

  pure def at(m: str -> int, k: str): int = if (m.keys().contains(k)) m.get(k) else 0
  pure def plus(m: str -> int, k: str, n: int): str -> int =
    m.put(k, at(m, k) + n)
}
