#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from this list and plan.py (run by hand after editing either)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import PLAN

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mechanism, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": None}})


PAIR = "contracts/pair/src/contract.rs"
prop("C01", "Constant-product swaps pay the curve price and never drain the pool",
     "A swap in a constant-product pool pays exactly what keeps the product of the reserves constant, rounded in the pool's favour, less the factory's total fee; the fee-share and maker cuts come out of that fee and everything else stays in the pool. "
     "Every coin that leaves one account arrives at the account entitled to it, the offer is really received, and the quotes (direct and reverse) announce exactly what the swap then does. A pool only ever opens for exactly two different assets.",
     ["histories", "inputs", "configurations"],
     "any sequence of swaps, deposits, withdrawals, donations, fee and fee-share changes; native and cw20 assets; any amounts and fee rates",
     "The repository's runnable tests price a handful of fixed trades on mocks; they do not run the pool with a factory, maker and fee share over histories.",
     [PAIR, "packages/astroport/src/factory.rs", "packages/astroport/src/asset.rs"],
     [("swap", PAIR + ": swap, compute_swap, compute_offer_amount"), ("fee lookup", "packages/astroport/src/querier.rs: query_fee_info")],
     [("reserves", "the pair's token balances", PAIR + ": pool_info"), ("fee share", "bps and recipient", "contracts/pair/src/state.rs: CONFIG")],
     ["swap message effects on all balances", "simulation, reverse_simulation queries"])
prop("C02", "Pool shares are proportional, backed, and never dilute other providers",
     "Depositing mints shares in proportion to the scarcer of the two deposits (the first deposit: the geometric mean less a permanently locked minimum), to the named receiver or staked for them; withdrawing burns exactly the shares sent and pays their proportion of both reserves, rounded down. "
     "The share supply is always exactly what holders, stakers and the locked minimum hold, and nothing else changes hands. Deposits of anything but the pool's own coins, in the amounts stated, are refused; trading and withdrawing stay possible whether or not the factory still lists the pool.",
     ["histories", "inputs", "configurations"],
     "any sequence of deposits (balanced or not, auto-staked, to others, with wrong or extra funds), withdrawals, donations and swaps",
     "Unit tests check single deposits against mocked balances; proportionality over histories with rounding, donations and emptied pools is not reached.",
     [PAIR, "packages/astroport/src/asset.rs", "packages/astroport/src/token_factory.rs"],
     [("deposit", PAIR + ": provide_liquidity, calculate_shares"), ("withdrawal", PAIR + ": withdraw_liquidity, get_share_in_assets")],
     [("share supply", "bank supply of the pool's token-factory denom", PAIR)],
     ["balances, share balances, supply, incentives deposits", "share, simulate_withdraw, simulate_provide, pool queries"])
prop("C03", "User limits on price, slippage and minimum amounts are always enforced",
     "In every kind of pool, no swap executes at a price worse than the trader's belief price and maximum spread (or the default) allow, no deposit whose slippage exceeds what is tolerated, and no tolerance above the global maximum is accepted; deposits and withdrawals that would yield less than the stated minimum are refused. "
     "(A concentrated pool exempts deposits within 0.001 of either coin of the balanced share from the slippage limit.) "
     "Operations within the limits are not refused, and a refused operation changes nothing.",
     ["inputs", "histories"],
     "any limit values around the exact threshold, in any pool state, for either direction and either asset order",
     "Tests check a few round numbers; the thresholds depend on rounding, on which side fees are counted, and on the pool state reached.",
     [PAIR, "contracts/pair_xyk_sale_tax/src/contract.rs", "contracts/pair_stable/src/contract.rs", "contracts/pair_concentrated/src/contract.rs"], [("spread guard", PAIR + ": assert_max_spread"), ("slippage guard", PAIR + ": assert_slippage_tolerance"), ("minimums", PAIR + ": ensure_min_assets_to_receive, min_lp_to_receive")],
     [], ["acceptance or refusal of each message"])
prop("C04", "Price accumulators integrate the pool price over time",
     "Each cumulative price equals the sum, over every interval between pool operations, of the interval's length times the price that held during it, so a consumer reading it at two moments gets the true time-weighted average; several operations in one block count once, and reading it never changes it.",
     ["histories", "schedules"],
     "any interleaving of operations and waiting times, including several operations in one block, donations, and emptied pools",
     "Unit tests feed single calls with hand-written timestamps; whether every operation accumulates once with the prices before it needs whole histories.",
     [PAIR, "contracts/pair_xyk_sale_tax/src/contract.rs", "contracts/pair_stable/src/contract.rs"],
     [("accumulation", PAIR + ": accumulate_prices and its callers")],
     [("accumulators", "cumulative prices and the time of their last update", "contracts/pair/src/state.rs: Config")],
     ["cumulative_prices, config queries"])
prop("C05", "Historical pool and LP balances answer what was held at a block",
     "When balance tracking is on, asking for a pool's balance of an asset at a block returns the balance after the last operation in an earlier block, for every past block and both assets (a gift to the pool — a donation, or a trade's proceeds sent to the pool itself — counts from the next operation on); without tracking it answers nothing. A tracked pool's LP tokens are tracked by block as well, by a tracker the pool makes and names: asked for any holder (also the pool and the incentives contract) and block, it gives the LP tokens held before that block began — at the current block those held now — and the supply likewise, as of the last movement.",
     ["histories", "schedules"],
     "any sequence of operations within and across blocks, queried at any height",
     "Snapshot tests are multi-contract tests that do not run here, and cover one short history.",
     [PAIR, "contracts/pair_xyk_sale_tax/src/contract.rs", "contracts/pair_concentrated/src/contract.rs"],
     [("snapshots", PAIR + ": BALANCES saves in provide, withdraw, swap"), ("LP tracker", PAIR + ": reply"), ("query", PAIR + ": AssetBalanceAt")],
     [("balance history", "per asset, by height", "contracts/pair/src/state.rs: BALANCES")], ["asset_balance_at query", "the LP tracker's balance_at and total_supply_at queries"])
prop("C06", "The sale-tax pool taxes exactly the configured share of sales",
     "In a sale-tax pool every sale of a taxed coin sends exactly the configured share of the offer to the tax recipient and trades the rest on the constant-product curve, and nothing else is taxed; pricing, shares, accumulators and history are those of the constant-product pool. "
     "Taxes never exceed the maximum, apply only to the pool's native coins, and only the tax admin can change them or pass the role on.",
     ["histories", "inputs", "configurations"],
     "any sequence of trades, deposits, withdrawals and tax changes for any rates, coins and callers",
     "The crate's tests are multi-contract tests that do not run here.",
     ["contracts/pair_xyk_sale_tax/src/contract.rs", "contracts/pair_xyk_sale_tax/src/state.rs", "packages/astroport/src/pair_xyk_sale_tax.rs"],
     [("tax", "contracts/pair_xyk_sale_tax/src/contract.rs: swap, query_simulation"), ("configuration", "contracts/pair_xyk_sale_tax/src/contract.rs: update_config; packages/astroport/src/pair_xyk_sale_tax.rs: TaxConfigs::check")],
     [], ["all balances", "simulation, reverse_simulation, config queries"])
STABLE = "contracts/pair_stable/src/contract.rs"
prop("C07", "Stableswap trades and shares follow the invariant and never leak value",
     "In a stable pool a swap pays what keeps the amplified invariant of the normalised balances (whatever the coins' decimals), less the factory's fee; it never lowers the invariant, and fee share and maker cut come out of the fee. "
     "Deposits in any proportion mint shares for exactly the relative growth of the invariant, withdrawals pay proportionally and burn exactly what was sent, user limits are enforced, and every coin that moves is accounted for; quotes (direct, reverse, deposit and withdrawal simulation) agree with execution. Deposits of anything but the pool's own coins, in the amounts stated, are refused; trading and withdrawing stay possible whether or not the factory still lists the pool.",
     ["histories", "inputs", "configurations"],
     "any sequence of swaps, deposits, withdrawals, donations and amplification changes; coins with different decimals; any fees",
     "Runnable tests exercise the solver on sampled balances; agreement of execution, quotes, fees and shares over histories with mixed decimals is not tested.",
     [STABLE, "contracts/pair_stable/src/math.rs", "contracts/pair_stable/src/utils.rs"],
     [("curve", "contracts/pair_stable/src/math.rs: compute_d, calc_y; utils.rs: compute_swap"), ("shares", "contracts/pair_stable/src/utils.rs: calculate_shares"), ("swap", STABLE + ": swap")],
     [("amplification", "current and target amp", "contracts/pair_stable/src/state.rs: Config")],
     ["balances, share balances and supply", "simulation, reverse_simulation, share, simulate_provide, query_compute_d"])
prop("C08", "Amplification moves gradually, within bounds, and only by the owner",
     "Only the pool's owner can change amplification or the fee share; a change starts no sooner than a day after the last, lasts at least a day, never exceeds a factor of ten or the absolute bounds, moves linearly between start and end, reaches the target exactly, and stopping freezes the current value. The fee share stays within its bound. A pool opens only for exactly two different registered assets, with an amplification within the bounds.",
     ["histories", "schedules", "inputs"],
     "any sequence of starting and stopping changes by any caller at any times, observed at any moment before, during and after a change",
     "The repository's amplification tests are multi-contract tests that do not run here and check two scripted ramps.",
     [STABLE, "contracts/pair_stable/src/utils.rs"],
     [("ramp", STABLE + ": start_changing_amp, stop_changing_amp; utils.rs: compute_current_amp")],
     [("ramp", "init_amp, init_amp_time, next_amp, next_amp_time", "contracts/pair_stable/src/state.rs: Config")],
     ["config query (amp), swap prices"])

INC = "contracts/tokenomics/incentives/src/"
prop("C18", "Stakers always get exactly their share of rewards, and the money is there",
     "In the incentives contract every reward distributed during an interval is split among stakers in proportion to the LP tokens they had staked during it, however deposits, withdrawals, claims, new or ending schedules and removals interleave, and each staker receives it exactly once (rounded down); staked LP tokens are always all returnable by their owners and no one else. "
     "The contract always holds enough of each reward token to pay everything owed to stakers, everything scheduled, and rewards orphaned while nobody was staked, and a reward token that refuses a transfer never blocks the stake or other rewards. Only the very LP token of a pair registered with the factory can be staked, funded with rewards, or given emissions.",
     ["histories", "schedules", "inputs"],
     "any interleaving of stakers, pools, schedules and waiting times, including several events in one second, rewards ending together, removals and re-incentivised tokens",
     "The contract's histories are only tested by multi-contract tests that do not run here; each follows one scripted scenario.",
     [INC + "execute.rs", INC + "state.rs", INC + "utils.rs", INC + "reply.rs"],
     [("accrual", INC + "state.rs: PoolInfo::update_rewards, calculate_rewards, UserInfo::claim_finished_rewards"), ("payment", INC + "utils.rs: claim_rewards; traits and reply.rs"),
      ("finished rewards", INC + "state.rs: PoolInfo::save, FINISHED_REWARD_INDEXES"), ("orphans", INC + "utils.rs: claim_orphaned_rewards")],
     [("reward indexes", "per pool and reward: rate, index per staked token, orphaned amount", INC + "state.rs: POOLS"), ("positions", "staked amount and the indexes last seen", INC + "state.rs: USER_INFO")],
     ["balances of all reward tokens", "pending_rewards, deposit, pool_stakers, pool_info, reward_info queries"])
prop("C19", "External reward schedules start, stack and end as funded",
     "A schedule pays its full amount at a constant rate from its funding until the end of the chosen number of weekly periods; overlapping schedules of one token add up and each ends at its own time, and removing a token returns exactly what is not yet given out. "
     "Exactly the reward and, for a token new to the pool, the fee is taken from the funder; rates below one unit per second, too long or empty durations, blocked tokens, unregistered pools, a sixth reward token (external ASTRO aside), and missing or extra funds are refused with nothing changed.",
     ["histories", "inputs", "schedules"],
     "any number of schedules of any tokens, lengths and amounts funded at any time by anyone, together or one by one, with rewards ending or being removed in between",
     "Multi-contract tests that do not run here check a few scripted overlaps; splitting and merging of schedules depends on the whole funding history.",
     [INC + "execute.rs", INC + "state.rs", INC + "utils.rs", "packages/astroport/src/incentives.rs"],
     [("schedules", INC + "state.rs: PoolInfo::incentivize, deregister_reward, update_rewards; packages/astroport/src/incentives.rs: IncentivesSchedule::from_input"), ("funding", INC + "utils.rs: incentivize; remove_reward_from_pool")],
     [("schedules", "rate by pool, token and end", INC + "state.rs: EXTERNAL_REWARD_SCHEDULES")],
     ["external_reward_schedules, reward_info, is_fee_expected queries", "balances of funders, receivers and the contract"])
prop("C20", "Emissions follow the allocation points, under the right authority",
     "ASTRO emissions are split among the active pools exactly by their allocation points and sum to at most the rate set; a pool leaves (and the others take over) when its pair is deregistered, its pair type is disabled, or one of its tokens is blocked, without touching what was already earned, and cannot be set up while so. "
     "Only the owner or the controller sets pools, only the owner the rate, configuration, removals and orphans, only the owner or the guardian the block list, only the factory deactivates a pool; ASTRO cannot be blocked, the reward transfer gas limit stays within bounds, and malformed addresses or coin names never enter the configuration, of a new contract either.",
     ["histories", "inputs", "configurations"],
     "any sequence of set-ups, rate changes, blockings, deregistrations and type changes by any caller, with any allocation points (also while the rate is zero)",
     "Only scripted multi-contract tests that do not run here cover this; consistency of the active list, totals and rates after combinations of events is not tested.",
     [INC + "execute.rs", INC + "utils.rs", INC + "state.rs", "contracts/factory/src/contract.rs"],
     [("allocation", INC + "execute.rs: setup_pools, set_tokens_per_second, update_blocked_pool_tokens; utils.rs: deactivate_pool, deactivate_blocked_pools"), ("configuration", INC + "execute.rs: update_config")],
     [("active pools", "LP tokens with allocation points", INC + "state.rs: ACTIVE_POOLS"), ("totals", "total_alloc_points, astro_per_second", INC + "state.rs: CONFIG")],
     ["active_pools, config, blocked_tokens_list, pool_info queries"])

VEST = "contracts/tokenomics/vesting/src/contract.rs"
prop("C23", "Vested tokens are fully funded and released exactly on schedule",
     "Every schedule is fully paid for when registered, and at any time a beneficiary can take exactly what its schedules have released so far (nothing before the start, the cliff at it, then linear to the full amount at the end) less what it already took; never more, never sooner, and only the beneficiary. "
     "The owner can take back only what the one running schedule has not released yet, which leaves what was released intact; what the contract holds is always exactly what was funded less what was claimed or taken back.",
     ["histories", "inputs", "schedules"],
     "any sequence of registrations (several accounts and schedules, repeated), partial and full claims, withdrawals by the owner and waiting times; native or cw20 token; any amounts and periods",
     "The repository's vesting tests follow a few scripted dates; the balance between several overlapping schedules, partial claims and owner withdrawals depends on the whole history and on rounding.",
     [VEST, "contracts/tokenomics/vesting/src/state.rs", "packages/astroport/src/vesting.rs"],
     [("release", VEST + ": compute_available_amount, calc_schedule_unlocked_amount, claim"), ("registration", VEST + ": register_vesting_accounts, receive_cw20"), ("withdrawal by the owner", VEST + ": withdraw_from_active_schedule")],
     [("schedules", "schedules and released amount by account", "contracts/tokenomics/vesting/src/state.rs: VESTING_INFO")],
     ["balances of all accounts", "vesting_account, vesting_accounts, available_amount queries"])

STK = "contracts/tokenomics/staking/src/contract.rs"
prop("C13", "Staked ASTRO shares are backed by the pot and never lose value",
     "Staking mints shares in proportion to the pot before it (the opening deposit: its amount less a locked minimum), unstaking burns exactly the shares sent and pays their proportion of the pot, both rounded against the caller; so a share is never worth less after a message than before it, donations raise it for everyone, and nothing is minted or paid otherwise. "
     "Shares or ASTRO go to the named receiver or hook, and the share balance of anyone and the total supply at any past second are what they were.",
     ["histories", "inputs", "schedules"],
     "any sequence of stakes (directly, to others, with a hook that spends the shares at once), unstakes, donations, share transfers and waiting times, several in one second; any amounts from one unit up; wrong, missing or extra coins",
     "Tests stake a few round amounts; rounding at extreme share prices, donations before the first stake and the interplay of hooks with the supply snapshot need histories.",
     [STK, "packages/astroport/src/staking.rs"],
     [("staking", STK + ": execute_enter"), ("unstaking", STK + ": execute_leave"), ("history", STK + ": query BalanceAt, TotalSupplyAt")],
     [("pot", "ASTRO balance of the contract", STK), ("shares", "supply of the share denom", STK)],
     ["balances and supply", "total_shares, total_deposit, balance_at, total_supply_at queries"])
prop("C14", "The xASTRO pair swaps at exactly the staking rate and keeps nothing",
     "Swapping ASTRO for xASTRO through the pair (or back) gives exactly what staking (or unstaking) the same amount directly would, to the named receiver, leaving nothing in the pair; quotes announce exactly that in every state of the staking pot, and anything else (other assets, wrong funds, liquidity messages) is refused without effect.",
     ["histories", "inputs"],
     "any sequence of swaps in both directions mixed with direct staking, donations and share transfers, from an empty pot on; any amounts and funds",
     "The pair's tests use a mocked staking contract in one state; agreement of the copied formula with the staking contract in all its states is not tested.",
     ["contracts/pair_xastro/src/contract.rs", "contracts/pair_xastro/src/queries.rs", STK],
     [("swap", "contracts/pair_xastro/src/contract.rs: swap, predict_stake, predict_unstake"), ("quotes", "contracts/pair_xastro/src/queries.rs: query")],
     [("pot and shares", "balances and supply seen through the bank", STK)],
     ["balances of all accounts", "simulation, reverse_simulation queries"])

XT = "contracts/tokenomics/xastro_token/src/contract.rs"
prop("C24", "The xASTRO cw20 keeps supply, balances and their history consistent",
     "The token's supply always equals the sum of all balances and stays within the cap; only the minter mints or burns, tokens move only at their holder's will or within an unexpired allowance (which shrinks by what is spent), a refused receiver returns everything, and nothing else changes. "
     "A past balance is what the account held when the block began, a past supply what it was at that block's end, for every block and account. What is told about the token changes only by the account named for it.",
     ["histories", "inputs", "schedules"],
     "any sequence of transfers, sends, mints, burns, allowances (with any expiry) and their use by any account, several in one block; any initial balances, cap, token details and logo",
     "The token's tests do not run here beyond logos; history across blocks with several writes, self-transfers, allowance expiry and duplicates among initial balances are not sampled.",
     [XT, "contracts/tokenomics/xastro_token/src/state.rs", "packages/astroport/src/xastro_token.rs"],
     [("movement", XT + ": execute_transfer, execute_send, execute_mint, execute_burn and their _from forms"), ("history", "contracts/tokenomics/xastro_token/src/state.rs: capture_total_supply_history, get_total_supply_at"), ("creation", XT + ": instantiate, create_accounts")],
     [("balances", "balance by account with snapshots", "contracts/tokenomics/xastro_token/src/state.rs: BALANCES, TOTAL_SUPPLY_HISTORY")],
     ["balance, token_info, balance_at, total_supply_at, allowance, all_accounts queries", "what a receiving contract is told"])


TR = "contracts/periphery/tokenfactory_tracker/src/contract.rs"
prop("C25", "The token tracker remembers every balance and supply truthfully",
     "For a tracked token-factory coin, asking for an account's balance at the current block or second gives what the bank holds, and at a past one gives what the account held before that block or second began, for every account and moment, through mints, burns, transfers (also to oneself) and the move from release 1. "
     "The supply is what it was when the coins last moved before; the hook never blocks a legitimate transfer, refuses other denoms, and other coins are not tracked.",
     ["histories", "inputs", "schedules"],
     "any sequence of mints, burns and transfers between any accounts, several in one block or second, tracked by blocks or by seconds",
     "The tests that drive the hook through a chain cover a few transfers; histories with several movements in one unit and self-transfers are not sampled.",
     [TR, "contracts/periphery/tokenfactory_tracker/src/query.rs"],
     [("hook", TR + ": sudo, track_balances"), ("queries", "contracts/periphery/tokenfactory_tracker/src/query.rs: balance_at, total_supply_at"), ("migration", TR + ": migrate")],
     [("history", "balances by account and supply, by unit", "contracts/periphery/tokenfactory_tracker/src/state.rs")],
     ["bank balances and supply", "balance_at, total_supply_at, config queries"])


FA = "contracts/factory/src/contract.rs"
prop("C15", "The factory keeps one pair per set of assets and obeys only its owner",
     "Anyone may create a pair of an enabled type (only the owner, if the type is permissioned) for assets that have none yet; the new pair is then found under exactly those assets in any order, listed once in every page walk, administered by the owner, and no other pair is found, hidden or blocked by it. "
     "Only the owner removes pairs (which ends their emissions) or changes settings, fee rates stay within bounds, and pairs always read the fees of their type as last set.",
     ["histories", "inputs", "configurations"],
     "any sequence of creations, removals and setting changes by anyone, for any sets of native and cw20 assets, pair types, parameters and page requests",
     "The factory's runnable tests create one or two pairs on a mocked querier; registry consistency over histories with several types, real pair contracts, owners and pages is not tested.",
     [FA, "contracts/factory/src/state.rs", "packages/astroport/src/factory.rs"],
     [("creation", FA + ": execute_create_pair, reply"), ("removal", FA + ": deregister"), ("registry key and pages", "contracts/factory/src/state.rs: pair_key, read_pairs, calc_range_start"), ("settings", FA + ": execute_update_config, execute_update_pair_config, update_tracker_config")],
     [("registry", "pair by assets", "contracts/factory/src/state.rs: PAIRS"), ("types", "settings by pair type", "contracts/factory/src/state.rs: PAIR_CONFIGS")],
     ["pair, pairs, config, fee_info, blacklisted_pair_types, tracker_config queries", "active pools of the incentives contract", "contract admins"])


CO = "packages/astroport/src/common.rs"
prop("C16", "Ownership changes hands only by a proposal claimed in time",
     "In every contract with an owner, only the current owner can propose another address (for at most 14 days) or withdraw the proposal, only the proposed address can take over, up to and including the last second of the proposal, and a proposal is used up by it. "
     "Until then the old owner, and afterwards only the new one, can do what is reserved to the owner; pools without an owner of their own follow the factory's.",
     ["histories", "inputs", "configurations"],
     "any sequence of proposals, withdrawals, claims, owner-only calls and waits by anyone, on each kind of contract",
     "Tests walk one hand-over per contract; overlapping proposals, boundary seconds, claims by former candidates and the use of powers in between are not enumerated.",
     [CO, FA, "contracts/pair_concentrated/src/contract.rs", "contracts/pair_stable/src/contract.rs", "contracts/tokenomics/incentives/src/execute.rs", "contracts/tokenomics/maker/src/contract.rs"],
     [("the rules", CO + ": propose_new_owner, drop_ownership_proposal, claim_ownership"), ("use in each contract", "execute of factory, incentives, maker, vesting, native coin registry, fee granter, pair_stable, pair_concentrated")],
     [("owner", "in each contract's config", CO), ("proposal", "candidate and expiry", CO + ": OwnershipProposal")],
     ["owner in config queries", "answers to owner-only messages"])

FG = "contracts/periphery/fee_granter/src/contract.rs"
prop("C26", "Gas allowances are backed by what was paid in and given only by the bosses",
     "The fee granter's owner and its (at most two) admins, and nobody else, create and revoke gas allowances and move coins out; each contract has at most one allowance, of exactly the coins sent with its creation unless bypassed, and the queries report exactly the allowances the chain holds. Only the owner changes who the admins are.",
     ["histories", "inputs", "configurations"],
     "any sequence of grants, revocations, transfers, admin changes and hand-overs by anyone with any coins, and any page request",
     "Tests cover a few grants on a stand-in chain; consistency of the contract's books with the chain's allowances over histories is not tested.",
     [FG, "contracts/periphery/fee_granter/src/state.rs"],
     [("grants", FG + ": grant, revoke, transfer_coins"), ("admins", FG + ": update_admins")],
     [("grants", "amount by grantee", "contracts/periphery/fee_granter/src/state.rs: GRANTS")],
     ["grants_list, grant_for queries", "fee allowances on the chain", "balances"])

NR = "contracts/periphery/native_coin_registry/src/contract.rs"
prop("C27", "The coin registry keeps the decimals it was told by those allowed to tell",
     "Every registered native coin keeps exactly the decimals last set by the owner, or by anyone who sent that coin along for a coin not yet known to it (the coins come back); only the owner changes or removes entries, no entry exceeds 18 decimals, a refused message changes nothing, and page walks list every coin exactly once.",
     ["histories", "inputs"],
     "any sequence of additions, registrations, removals and hand-overs by anyone, with any lists and coins, and any page request",
     "Tests exercise a few single messages; lists with repeated or already known coins, partially valid lists and page limits are not enumerated.",
     [NR],
     [("adding", NR + ": inner_add, update_decimals, register_decimals"), ("removing", NR + ": remove")],
     [("registry", "decimals by denom", "packages/astroport/src/native_coin_registry.rs: COINS_INFO")],
     ["native_token and native_tokens queries", "raw COINS_INFO", "balances"])

WL = "contracts/whitelist/src/contract.rs"
prop("C28", "The whitelist proxy acts for its admins only, until frozen and after",
     "The whitelist contract sends exactly the messages an admin gives it, unchanged and in order, and none for anyone else; admins can replace the list of admins while it is mutable, and once frozen nothing can change it again.",
     ["histories", "inputs"],
     "any sequence of executions, freezes, admin updates by anyone, with any messages and lists",
     "Tests show single transitions; freezing followed by any attempt, self-removal, duplicates and empty lists are not explored.",
     [WL],
     [("execution", WL + ": execute"), ("admins", "contracts/whitelist/src/state.rs and cw1-whitelist")],
     [("admins", "list and mutability", "cw1_whitelist::state::ADMIN_LIST")],
     ["admin_list, can_execute queries", "messages sent"])


RO = "contracts/router/src/contract.rs"
prop("C17", "Routed swaps follow the path whole, and pay at least the stated minimum",
     "A route of one to fifty trades either happens whole, each step selling in the factory's pair for its assets exactly what the previous one brought, with the proceeds delivered to the chosen receiver in at least the stated minimum, or changes nothing at all. "
     "Nobody but the router itself runs its single steps, nothing offered along the way stays behind in the router, quotes for a path equal the chained pool quotes, and the reported amount is what the receiver got.",
     ["histories", "inputs", "configurations"],
     "any path over native and cw20 assets (repeated pools, loops, missing pairs, lopsided or empty pools), any amounts, minimums, spreads, receivers and funds left in the router",
     "Tests run a couple of fixed two-hop routes; loops, receivers that already hold the target asset, routes back to the offered asset, forged notifications and minimums at the exact boundary are not explored.",
     [RO, "contracts/router/src/operations.rs"],
     [("the path", RO + ": execute_swap_operations, assert_operations"), ("one step", "contracts/router/src/operations.rs: execute_swap_operation, asset_into_swap_msg"), ("the minimum", RO + ": reply"), ("quotes", RO + ": simulate_swap_operations, simulate_reverse_swap_operations")],
     [("pending route", "target, receiver, balance before", "contracts/router/src/state.rs: REPLY_DATA")],
     ["balances of everyone involved", "simulate and reverse simulate queries", "data of the response"])


TR = "contracts/pair_transmuter/src/contract.rs"
prop("C11", "The transmuter trades its coins one for one and covers every share",
     "Every swap in a transmuter pool pays exactly the offered worth in the asked coin (up to the coarser coin's last digit, in the pool's favour), or is refused when the pool has too little; shares are minted and redeemed at exactly that worth, balanced or in any mix of coins, unused shares come back, and the pool's coins are always worth at least all shares. "
     "Quotes equal what trades then pay.",
     ["histories", "inputs", "configurations"],
     "any sequence of deposits, balanced and imbalanced withdrawals, swaps and donations in pools of two to five coins of any decimals, with any amounts, missing or extra coins",
     "Tests use a few amounts in pools of 6 decimals and one mix; uneven decimals, coins emptied to the last unit, mixes that repeat a coin, and reverse quotes across decimals are not covered.",
     [TR, "contracts/pair_transmuter/src/utils.rs", "contracts/pair_transmuter/src/state.rs", "contracts/pair_transmuter/src/queries.rs"],
     [("deposits and withdrawals", TR + ": provide_liquidity, withdraw_liquidity"), ("swaps", "contracts/pair_transmuter/src/utils.rs: assert_and_swap"), ("units", "contracts/pair_transmuter/src/state.rs: normalize, denormalize"), ("reverse quotes", "contracts/pair_transmuter/src/queries.rs: reverse_swap")],
     [("pool coins", "bank balances of the pair", "packages/astroport/src/asset.rs: query_pools"), ("decimals", "normalisation coefficients", "contracts/pair_transmuter/src/state.rs: norm_coeff")],
     ["balances, LP supply", "pool, share, simulation and reverse_simulation queries"])

CV = "contracts/periphery/astro_converter/src/contract.rs"
prop("C12", "Old ASTRO converts to new one for one, and only old ASTRO does",
     "Whoever hands a converter old ASTRO, directly or through the virtual pair a former pool turned into, gets exactly as much new ASTRO, to the account they name, or the whole thing is refused; nothing else is converted. Collected old ASTRO leaves only by being burnt (where it is a token) or by being sent to the burn address over the configured channel (where it is an IBC coin; on Neutron only when the relayers' fee is covered, and no more than that fee is spent). "
     "The virtual pair supports nothing but that trade; pairs and vesting contracts can move over only from the listed releases, to a converter for the same assets, and a vesting contract's whole balance becomes new ASTRO so that every schedule still pays in full.",
     ["histories", "inputs", "configurations"],
     "any sequence of conversions (right, wrong, forged or mixed funds), burns, transfers, refills, fee changes and migrations, on the hub, on outposts and on Neutron",
     "Unit tests check single messages against mocked queriers; balances across the converter, pair, token and vesting contracts are not followed, and the Neutron fee logic is not run.",
     [CV, "contracts/periphery/astro_converter_neutron/src/contract.rs", "contracts/pair_astro_converter/src/contract.rs", "contracts/tokenomics/vesting/src/contract.rs"],
     [("conversion", CV + ": convert, cw20_receive"), ("burning", CV + ": burn, ibc_transfer_for_burning"), ("virtual pair", "contracts/pair_astro_converter/src/contract.rs, migrate.rs"), ("vesting", "contracts/tokenomics/vesting/src/contract.rs: migrate")],
     [("converter balances", "old and new ASTRO held", "bank and cw20 balances"), ("timeout bounds", "seconds", "packages/astroport/src/astro_converter.rs")],
     ["balances of both coins everywhere", "IBC transfers sent", "simulation and reverse_simulation queries"])


PCLP = "contracts/pair_concentrated/src/contract.rs"
PCLC = "packages/astroport_pcl_common/src/"
prop("C09", "Concentrated pools trade on their curve and reprice only out of earned profit",
     "In a concentrated pool a swap pays what the curve around the current price scale gives for the balances before it, less a fee between the mid and the out fee by imbalance; the fee share and maker cut come out of that fee. A swap that would lower the value of a share is refused (outside of a ramp), and the price scale moves only towards the moving-average price, by at most the allowed step, and only if at least half of the profit earned so far stays with the providers. "
     "Deposits mint by growth of the invariant less a fee for imbalance, withdrawals pay proportionally and burn exactly what was sent; the trader's, depositor's and withdrawer's limits and minimums are enforced; quotes, LP price and history agree with execution; trading is never blocked by the price bookkeeping itself. Deposits of anything but the pool's own coins, in the amounts stated, are refused; trading and withdrawing stay possible whether or not the factory still lists the pool (which it must for deposits).",
     ["histories", "inputs", "schedules", "configurations"],
     "any sequence of swaps, deposits, withdrawals, donations, waiting times, parameter changes and ramps; coins with different decimals; any initial price, curve and fee parameters in bounds",
     "Runnable tests exercise the solver on sampled numbers and one trade loop on floats; repegging, profit accounting and limits over whole histories are only in multi-contract tests that do not run here.",
     [PCLP, "contracts/pair_concentrated/src/utils.rs", "contracts/pair_concentrated/src/queries.rs", PCLC + "state.rs", PCLC + "utils.rs", PCLC + "math/math_decimal.rs"],
     [("curve", PCLC + "math/math_decimal.rs: newton_d, newton_y"), ("swap", PCLP + ": swap; " + PCLC + "utils.rs: compute_swap, assert_max_spread"),
      ("repeg", PCLC + "state.rs: PoolState::update_price"), ("shares", "contracts/pair_concentrated/src/utils.rs: calculate_shares; " + PCLC + "utils.rs: get_share_in_assets"),
      ("limits", "contracts/pair_concentrated/src/utils.rs: ensure_min_assets_to_receive; " + PCLC + "utils.rs: assert_slippage_tolerance")],
     [("prices", "oracle, last and scale price, profit and realised profit per share", PCLC + "state.rs: PriceState")],
     ["balances, share balances, supply, incentives deposits", "config (price state), simulation, reverse_simulation, share, simulate_provide, lp_price, compute_d, cumulative_prices, observe, asset_balance_at"])
prop("C10", "Concentrated-pool parameters stay bounded; curve changes are gradual and owned",
     "Only the pool's owner can change a concentrated pool's parameters, curve or fee share. Every fee, threshold, step and averaging time stays within its bounds with the out fee above the mid fee; amplification and gamma are changed at most tenfold and within their bounds, no sooner than a day after the last change and over at least a day, move linearly in between, reach the target exactly, and stopping freezes the values of that moment. The fee share stays within its bound. All these bounds hold from the moment a pool opens, which it only does for exactly two different registered assets and at a price above zero.",
     ["histories", "schedules", "inputs"],
     "any sequence of parameter updates, ramps started and stopped, by any caller at any times, observed before, during and after; values at and around each bound",
     "The repository's tests of ramps check one scripted ramp at a few instants; combinations of partial updates, repeated ramps and boundary values are not sampled.",
     [PCLP, PCLC + "state.rs", PCLC + "consts.rs"],
     [("parameters", PCLC + "state.rs: PoolParams::update_params"), ("ramp", PCLC + "state.rs: promote_params, stop_promotion, get_amp_gamma"), ("authority", PCLP + ": update_config")],
     [("ramp", "initial and future amp and gamma with their times", PCLC + "state.rs: PoolState")],
     ["config, amp_gamma queries"])


MK = "contracts/tokenomics/maker/src/contract.rs"
MKU = "contracts/tokenomics/maker/src/utils.rs"
prop("C21", "Collected fees are traded into ASTRO along the configured routes, all or nothing",
     "Anyone can have the maker collect: every listed asset (up to its limit, each at most once) is traded with real pools towards ASTRO, over the configured bridge, else the default bridge, else directly, hop by hop until only ASTRO is left; no trade executes outside the maximum spread, routes that lead nowhere or loop are refused, and a collection that cannot be finished changes nothing. "
     "The cooldown between collections is kept. Bridges are accepted only if they lead to ASTRO; only the owner changes settings, each within its bounds, which hold from the start; only seizable assets can be seized, only to the receiver set for them; nobody but the contract itself runs its internal steps.",
     ["histories", "inputs", "configurations"],
     "any sequence of collections with any lists and limits, seizures, bridge and settings changes by any caller, pools disappearing, fees arriving; native and cw20 assets",
     "All of the maker's behavioural tests are multi-contract tests that do not run here; they cover a few fixed bridges.",
     [MK, MKU, "contracts/tokenomics/maker/src/state.rs"],
     [("collection", MK + ": collect, swap_assets, swap, swap_bridge_assets"), ("routes", MKU + ": validate_bridge, get_pool, build_swap_msg"), ("authority", MK + ": update_config, update_bridges, seize, execute")],
     [("bridges", "asset to the asset it is traded for", "contracts/tokenomics/maker/src/state.rs: BRIDGES"), ("last collection", "time", "LAST_COLLECT_TS")],
     ["all balances after each message", "config, bridges, balances, seize config queries"])
prop("C22", "Collected ASTRO is split exactly as configured, and nothing else is paid out",
     "Each distribution hands the second receiver its cut, governance its percentage of the rest, the development fund exactly what its share was traded for, and the stakers everything that remains; the shares never exceed the whole. ASTRO accrued before rewards were enabled is released linearly over the configured number of blocks, once, and never more than was promised; other assets the maker holds stay where they are.",
     ["histories", "inputs", "schedules", "configurations"],
     "any sequence of collections, settings changes (receivers set and removed, any percentages and shares), the moment of enabling and the blocks since; any amounts",
     "The distribution tests are multi-contract tests that do not run here, with one configuration each; combinations of receivers, enabling and fees held in the development fund's asset are not sampled.",
     [MK, "contracts/tokenomics/maker/src/reply.rs", MKU],
     [("distribution", MK + ": distribute, distribute_astro"), ("development fund", "contracts/tokenomics/maker/src/reply.rs: reply"), ("settings", MK + ": update_config; " + MKU + ": validate_shares, update_second_receiver_cfg")],
     [("pre-upgrade reward", "remainder and last distribution block", "packages/astroport/src/maker.rs: Config")],
     ["balances of all receivers", "config query"])
OR = "contracts/periphery/oracle/src/contract.rs"
prop("C29", "The oracle answers the true average of the pool price over the last full period",
     "The oracle updates at most once per period, by anyone; each update's average is exactly how far the pool's accumulator of that direction advanced since the previous update, divided by the time since, also when the accumulator wrapped around. An amount is worth that average, in every other asset of the pool; before there is an average the pool's spot quote answers, and assets the pool does not have are refused.",
     ["histories", "schedules", "inputs"],
     "any interleaving of trades, deposits, waiting times around the period and updates; pools of two or three assets with any decimals; any accumulator movement, including wrap-around",
     "The oracle's tests are multi-contract tests that do not run here; wrap-around and period boundaries are not covered.",
     [OR, "contracts/periphery/oracle/src/state.rs", "contracts/periphery/oracle/src/querier.rs"],
     [("update", OR + ": update"), ("answer", OR + ": consult")],
     [("averages", "accumulators at the last update and the averages of the period before it", "contracts/periphery/oracle/src/state.rs: PRICE_LAST")],
     ["consult query", "stored prices"])
CB = "packages/circular_buffer/src/lib.rs"
OB = "packages/astroport/src/observation.rs"
prop("C30", "Pools remember trade prices truly: latest kept, averages exact, past answered",
     "The ring buffer always holds exactly the latest values stored in it, newest last, whatever its capacity and however they were pushed; nothing is stored before it is committed. On top of it, stable and concentrated pools record one price per block with trades, the moving average is that of exactly the observations kept (also once the buffer is full and wraps around), and asking for the price some seconds ago returns the recorded or interpolated average of that moment, or refuses if it is out of reach. Bookkeeping never blocks trading.",
     ["histories", "schedules", "inputs"],
     "any sequence of trades within and across blocks, before and after the buffer wraps around, any capacity, any prices, asked for any time; any interleaving of pushes, commits, reads and clears on the ring",
     "The buffer's tests fill it once; the pools' tests stop far below 3000 observations, so the wrapped moving average is never reached.",
     [CB, OB, "contracts/pair_stable/src/utils.rs", "contracts/pair_concentrated/src/utils.rs"],
     [("ring", CB + ": BufferManager"), ("recording", "contracts/pair_stable/src/utils.rs, contracts/pair_concentrated/src/utils.rs: accumulate_swap_sizes"), ("average", OB + ": safe_sma_calculation, safe_sma_buffer_not_full"), ("answer", OB + ": query_observation, binary_search")],
     [("observations", "ring of time, price and average", "OBSERVATIONS"), ("pending trades", "this block's trades", OB + ": PrecommitObservation")],
     ["observe query", "reads of the buffer"])

M = "contracts/factory/src/migration.rs"
prop("C31", "Upgrades keep everything they do not say they change; only known releases",
     "Whatever a contract has been through, upgrading it from a release its code knows (as that release stored its state) succeeds, leaves the contract at the current release, and keeps everything it holds, owes and remembers: balances, stakes, schedules, rewards, prices and their accumulators, registered pairs, routes, settings, owners, and what becomes of every later message. Only what the upgrade says changes: a plain pool becomes one with the sale tax given (within its bounds); the factory's older pair settings are read as open to everyone and old concentrated pools become the custom kind of that name, with the tracker given; the maker gets the cooldown and second receiver given, no development fund where there was none, and nothing that can be seized; the oracle gets both ways' prices and the decimals. Upgrading from any other contract or release is refused, and a refused upgrade changes nothing.",
     ["histories", "inputs"],
     "any history before and after the upgrade, any release, any parameters, upgrades more than once",
     "There are hardly any migration tests: each contract's migrate is at most called once, on a fresh contract.",
     [M, "contracts/tokenomics/maker/src/migration.rs", "contracts/pair_xyk_sale_tax/src/contract.rs", "contracts/periphery/oracle/src/migration.rs"],
     [("factory", M + ": migrate_pair_configs; contracts/factory/src/contract.rs: migrate"), ("maker", "contracts/tokenomics/maker/src/contract.rs: migrate; migration.rs: migrate_from_v120_plus"), ("sale tax", "contracts/pair_xyk_sale_tax/src/contract.rs: migrate"), ("others", "migrate of oracle, router, staking, xastro_token, native_coin_registry, incentives, pair_concentrated, tokenfactory_tracker, pair_astro_converter, vesting")],
     [("release", "contract name and version (cw2)", "contract_info"), ("stored state", "everything in the contract's storage", "state.rs of each contract")],
     ["migrate", "all queries and later messages"])


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    checks = []
    for p in P:
        plan = PLAN.get(p["id"])
        if not plan:
            continue
        specs = sorted({r["spec"] for r in plan["runs"]})
        checks.append({
            "property": p["id"],
            "quick_cmd": f"python3 tools/check.py {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 tools/check.py {p['id']}",
            "technique": "Quint specification (" + ", ".join(s + ".qnt" for s in specs) + "): generated behaviours replayed into the real contracts, state compared after every message"
                         + ("; small instance model-checked with TLC" if plan.get("model_check") else ""),
            "level": plan.get("level", "exploration"),
            "level_note": plan.get("note", "Randomly generated behaviours of an explicit specification, with invariants checked on every specification state and every observable compared with the real contracts after every message. Trusts the specification, the cw-multi-test chain stand-in and the driver's projection; assurance is bounded by the behaviours explored."),
        })
    missing = [p["id"] for p in P if p["id"] not in PLAN]
    json.dump({"version": 1, "setup_cmd": "bash tools/build.sh -q", "checks": checks,
               "not_applicable": [{"property": m, "reason": "not built yet"} for m in missing],
               "notes": "Quint 0.32; no hooks in /repo are needed: everything is observed through messages, queries and the chain."},
              open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)


main()
