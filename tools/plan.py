"""What each property's check runs. See DESIGN.md."""

XYK = dict(spec="xyk", main="xyk_pair", driver="xyk")
STABLE = dict(spec="stable", main="stable", driver="stable")
TAX = dict(spec="xyk", main="xyk_sale_tax", driver="xyk_tax")

PCL = dict(spec="pcl", main="pcl", driver="pcl")

PLAN = {}


def check(pid, runs, **kw):
    PLAN[pid] = dict(runs=runs, **kw)


SWAP_OPS = ["Swap", "FeeShare", "SetFees", "Donate", "Open"]

check("C01", [dict(XYK, quick=(560, 40), thorough=(12000, 60), ops=SWAP_OPS,
                   ignore=["probe.share", "probe.provide", "probe.cumAt", "probe.at", "probe.lpAt", "st.last",
                           "res.Swap.max_spread", "res.Swap.spread_limit_too_high"])])
check("C02", [dict(XYK, quick=(560, 40), thorough=(12000, 60), ops=["Provide", "Withdraw"],
                   ignore=["probe.sim", "probe.rev", "probe.cumAt", "probe.at", "probe.lpAt", "st.last", "res.Provide.max_slippage",
                           "res.Provide.slippage_limit_too_high", "res.Provide.min_lp", "res.Withdraw.min_assets"])])
LIMITS = ["res.Swap", "res.Provide", "res.Withdraw"]
check("C03", [dict(XYK, quick=(320, 40), thorough=(12000, 60), watch=LIMITS), dict(TAX, quick=(160, 40), thorough=(6000, 60), watch=LIMITS),
              dict(STABLE, quick=(160, 40), thorough=(6000, 60), watch=LIMITS), dict(PCL, quick=(96, 40), thorough=(3000, 60), watch=LIMITS)])
check("C04", [dict(XYK, quick=(400, 40), thorough=(8000, 60), watch=["probe.cumAt", "st.last"]),
              dict(TAX, quick=(160, 40), thorough=(4000, 60), watch=["probe.cumAt", "st.last"]),
              dict(STABLE, quick=(240, 40), thorough=(6000, 60), watch=["probe.cumAt", "st.last"]),
              dict(PCL, quick=(96, 40), thorough=(2000, 60), watch=["probe.cumAt", "st.last"])])
BOOKS = ["probe.at", "probe.lpAt"]
check("C05", [dict(XYK, quick=(400, 40), thorough=(12000, 60), watch=BOOKS),
              dict(TAX, quick=(160, 40), thorough=(4000, 60), watch=BOOKS),
              dict(PCL, quick=(96, 40), thorough=(2000, 60), watch=BOOKS)])
check("C06", [dict(TAX, quick=(560, 40), thorough=(12000, 60))])
check("C07", [dict(STABLE, quick=(560, 40), thorough=(10000, 60),
                   ignore=["probe.amp", "probe.cumAt", "st.last", "probe.observe", "res.StartAmp", "res.StopAmp"])])
check("C08", [dict(STABLE, quick=(400, 40), thorough=(10000, 60), ops=["StartAmp", "StopAmp", "FeeShare", "Wait", "Open"],
                   ignore=["probe.sim", "probe.rev", "probe.share", "probe.provide", "probe.cumAt", "st.last", "probe.observe"])])
check("C09", [dict(PCL, quick=(160, 40), thorough=(4000, 60), ignore=["probe.amp", "probe.gamma", "probe.observe", "probe.lpAt"]),
              dict(PCL, go="market", quick=(128, 60), thorough=(3000, 80), ignore=["probe.amp", "probe.gamma", "probe.observe", "probe.lpAt"])])
check("C10", [dict(PCL, go="rule", quick=(240, 40), thorough=(4000, 60), ops=["Tune", "Promote", "StopRamp", "FeeShare", "Wait", "Open"],
                   ignore=["probe.lpAt", "probe.sim", "probe.rev", "probe.share", "probe.provide", "probe.cumAt", "st.last", "probe.observe"])])

INC = dict(spec="incentives", main="incentives", driver="incentives")
SCRIPT = dict(INC, init="initScript", quick=(1, 9), thorough=(1, 9))
check("C18", [dict(INC, quick=(480, 45), thorough=(4000, 60), ignore=["probe.blocked", "probe.active", "probe.feeExpected"]),
              dict(SCRIPT, name="incentives_same_second", go="sameSecond"), dict(SCRIPT, name="incentives_stale_index", go="staleIndex")])
check("C19", [dict(INC, quick=(480, 45), thorough=(4000, 60), ignore=["probe.blocked", "probe.active"]),
              dict(SCRIPT, name="incentives_left_behind", go="leftBehind")])
check("C20", [dict(INC, quick=(320, 45), thorough=(4000, 60), ignore=["probe.schedules", "probe.feeExpected"]),
              dict(INC, go="policed", quick=(160, 45), thorough=(2000, 60), ignore=["probe.schedules", "probe.feeExpected"])])

check("C23", [dict(spec="vesting", main="vesting", driver="vesting", quick=(800, 40), thorough=(12000, 60))])

STAKE = dict(spec="staking", main="staking", driver="staking")
check("C13", [dict(STAKE, quick=(640, 40), thorough=(8000, 60), ignore=["probe.quote"])])
check("C14", [dict(STAKE, quick=(640, 40), thorough=(8000, 60), ops=["Swap", "NotSwap"], ignore=["probe.at"])])
check("C24", [dict(spec="xtoken", main="xtoken", driver="xtoken", quick=(800, 40), thorough=(10000, 60))])
check("C25", [dict(spec="tracker", main="tracker", driver="tracker", quick=(800, 40), thorough=(12000, 60))])

FACT = dict(spec="factory", main="factory", driver="factory")
check("C15", [dict(FACT, quick=(320, 40), thorough=(8000, 60)), dict(FACT, go="many", quick=(32, 70), thorough=(320, 90)),
              dict(FACT, name="factory_collision", init="initScript", go="collision", quick=(1, 2), thorough=(1, 2))])

check("C16", [dict(spec="ownership", main="ownership", driver="ownership", quick=(800, 40), thorough=(8000, 60))])
check("C26", [dict(spec="granter", main="granter", driver="granter", quick=(720, 40), thorough=(12000, 60))])
check("C27", [dict(spec="registry", main="registry", driver="registry", quick=(720, 40), thorough=(12000, 60))])
check("C28", [dict(spec="whitelist", main="whitelist", driver="whitelist", quick=(640, 40), thorough=(12000, 60))])

check("C17", [dict(spec="router", main="router", driver="router", quick=(560, 40), thorough=(8000, 60))])

check("C11", [dict(spec="transmuter", main="transmuter", driver="transmuter", quick=(800, 40), thorough=(12000, 60))])

check("C12", [dict(spec="converter", main="converter", driver="converter", quick=(960, 40), thorough=(12000, 60))])

MAKER = dict(spec="maker", main="maker", driver="maker")
check("C21", [dict(MAKER, quick=(400, 40), thorough=(10000, 60))])
check("C22", [dict(MAKER, go="share", quick=(400, 40), thorough=(10000, 60))])

check("C29", [dict(spec="oracle", main="oracle", driver="oracle", quick=(800, 40), thorough=(12000, 60))])

OBS = ["probe.observe"]
check("C30", [dict(spec="buffer", main="buffer", driver="buffer", quick=(800, 30), thorough=(16000, 60)),
              dict(STABLE, go="flurry", quick=(160, 60), thorough=(4000, 80), watch=OBS),
              dict(PCL, go="flurry", quick=(96, 50), thorough=(2000, 70), watch=OBS)])

check("C31", [dict(r, go="upgrades", name=r["driver"] + "_upgrades", quick=(q, 40), thorough=(30 * q, 50)) for r, q in [
                  (INC, 64), (PCL, 48), (TAX, 96), (MAKER, 128), (FACT, 128), (STAKE, 96), (dict(spec="registry", main="registry", driver="registry"), 64),
                  (dict(spec="xtoken", main="xtoken", driver="xtoken"), 64), (dict(spec="router", main="router", driver="router"), 64),
                  (dict(spec="oracle", main="oracle", driver="oracle"), 96)]]
      + [dict(spec="tracker", main="tracker", driver="tracker", quick=(96, 40), thorough=(3000, 50)),
         dict(spec="converter", main="converter", driver="converter", quick=(96, 40), thorough=(3000, 50))])
