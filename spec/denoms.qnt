// -*- mode: Bluespec; -*-
/// What may be the name of a coin: 3 to 128 characters, a letter, then letters, digits and / : . _ -
module denoms {
  /// `first`, then the character `other` among letters, `len` in all
  type Denom = { len: int, first: str, other: str }
  pure val FIRST = ["a", "u", "Z", "a", "u", "1", "/", "-", "é"]
  pure val OTHER = ["a", "a", "/", ":", ".", "_", "-", "7", "Q", "@", " ", "+", "é", "\\"]
  pure val LENGTHS = [12, 44, 3, 2, 1, 127, 128, 129, 200, 4]
  pure def wellFormed(d: Denom): bool =
    and { d.len >= 3, d.len <= 128, Set("a", "u", "Z").contains(d.first), Set("a", "/", ":", ".", "_", "-", "7", "Q").contains(d.other) }
  /// at most one thing unusual in most
  pure def denomOf(k: int, i: int): Denom = {
    val len = if (k % 4 == 0 or k % 4 == 3) LENGTHS[i % LENGTHS.length()] else 12
    { len: len, first: if (k % 4 == 1) FIRST[i % FIRST.length()] else "u",
      other: if (len < 3) "a" else if (k % 4 == 2 or k % 4 == 3) OTHER[i / 10 % OTHER.length()] else "a" }
  }
}
