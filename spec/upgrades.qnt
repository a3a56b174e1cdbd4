// -*- mode: Bluespec; -*-
/// Releases a contract is upgraded from. An upgrade of a release the code knows keeps everything but what it says it
/// changes; of anything else it is refused.
module upgrades {
  import math.* from "./math"

  type Release = { name: str, version: str }
  pure val UNKNOWN = ["0.9.0", "1.0.3", "3.9.9", "1.6.1", "2.0.5", "99.0.0", ""]
  /// one of them mostly; else another release, or another contract
  pure def release(k_: int, name: str, versions: List[str]): Release = {
    val v = pick(versions, k_ / 8)
    if (k_ % 8 == 0) { name: name, version: pick(UNKNOWN, k_ / 8) }
    else if (k_ % 8 == 1) { name: pick(["astroport-pair", "astroport-pair-stable", "crates.io:other", "astroport"], k_ / 8 / versions.length()), version: v }
    else { name: name, version: v }
  }
  pure def knows(r: Release, name: str, versions: List[str]): bool =
    r.name == name and versions.foldl(false, (b, v) => b or v == r.version)
}
