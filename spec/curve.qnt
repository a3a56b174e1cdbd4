// -*- mode: Bluespec; -*-
/// Quotes on the constant-product curve.
module curve {
  import math.* from "./math"

  pure val U128 = 2^128
  pure def bps(n: int): int = n * 10^14

  /// Tokens out of a constant-product pool before fees: at most what keeps offer*ask constant, rounded down.
  pure def curveOut(x: int, y: int, dx: int): int = (y * E18 - ratio(x * y, x + dx)) / E18

  type Quote = { ret: int, spread: int, fee: int, tax: int, offer: int, ok: bool }
  pure val NO_QUOTE: Quote = { ret: -1, spread: -1, fee: -1, tax: 0, offer: 0, ok: false }

  /// x, y: offer and ask pools before the trade
  pure def quote(x: int, y: int, offered: int, taxRate: int, feeRate: int): Quote = {
    val tax = mulDec(offered, taxRate)
    val dx = offered - tax
    if (x == 0 or y == 0 or dx == 0) NO_QUOTE
    else {
      val gross = curveOut(x, y, dx)
      val fee = mulDec(gross, feeRate)
      val spread = satSub(mulDec(dx, ratio(y, x)), gross)
      // amounts are 128-bit: a trade whose figures do not fit is refused
      if (spread >= U128) NO_QUOTE
      else { ret: gross - fee, fee: fee, spread: spread, tax: tax, offer: dx, ok: true }
    }
  }

  type RevQuote = { offer: int, spread: int, fee: int }
  pure val NO_REV: RevQuote = { offer: -1, spread: -1, fee: -1 }
  pure def reverseQuote(x: int, y: int, ask: int, taxRate: int, feeRate: int): RevQuote = {
    if (x == 0 or y == 0 or ask == 0 or feeRate >= E18) NO_REV
    else {
      val gross = mulDec(ask, decDiv(E18, E18 - feeRate))
      if (gross >= y) NO_REV
      else {
        val dx = x * y / (y - gross) - x
        if (dx < 0 or dx >= U128 or ratio(y, x) >= U128 or mulDec(dx, ratio(y, x)) >= U128) NO_REV
        else {
          { offer: if (taxRate == 0) dx else mulCeil(dx, decDiv(E18, E18 - taxRate)),
            spread: satSub(mulDec(dx, ratio(y, x)), gross),
            fee: mulDec(gross, feeRate) }
        }
      }
    }
  }
}
