#!/usr/bin/env python3
"""Lays out a planted change: tools/plant.py ID PROPERTY 'needs' 'what it breaks' dep,dep... < main.rs
The patch is what `git -C WORKTREE diff` shows (WORKTREE: /tmp/plant/repo)."""
import json, os, subprocess, sys, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PATHS = {"pair": "contracts/pair", "factory": "contracts/factory", "pair-stable": "contracts/pair_stable", "pair-concentrated": "contracts/pair_concentrated",
         "pair-transmuter": "contracts/pair_transmuter", "pair-xastro": "contracts/pair_xastro", "pair-xyk-sale-tax": "contracts/pair_xyk_sale_tax",
         "router": "contracts/router", "whitelist": "contracts/whitelist", "incentives": "contracts/tokenomics/incentives", "maker": "contracts/tokenomics/maker",
         "staking": "contracts/tokenomics/staking", "vesting": "contracts/tokenomics/vesting", "xastro-token": "contracts/tokenomics/xastro_token",
         "oracle": "contracts/periphery/oracle", "native-coin-registry": "contracts/periphery/native_coin_registry",
         "tokenfactory-tracker": "contracts/periphery/tokenfactory_tracker", "fee-granter": "contracts/periphery/fee_granter",
         "pair-converter": "contracts/pair_astro_converter", "circular-buffer": "packages/circular_buffer", "pcl-common": "packages/astroport_pcl_common"}
LIB = {"factory", "pair", "pair-stable", "pair-concentrated", "pair-xastro", "pair-xyk-sale-tax", "incentives", "maker", "vesting", "xastro-token", "fee-granter"}
i, prop, needs, breaks, deps = sys.argv[1:6]
d = os.path.join(VERIF, "seeded", i)
os.makedirs(os.path.join(d, "src"), exist_ok=True)
patch = subprocess.check_output(["git", "-C", "/tmp/plant/repo", "diff"], text=True)
assert patch.strip(), "no change"
open(os.path.join(d, "patch.diff"), "w").write(patch)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
main = sys.stdin.read()
deps = [x for x in deps.split(",") if x]
toml = f"""[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
cosmwasm-std = {{ version = "1.5", features = ["cosmwasm_1_4", "stargate", "iterator"] }}
cw-multi-test = {{ version = "1.2.0", features = ["cosmwasm_1_4"] }}
cw20 = "1.1"
cw20-base = {{ version = "1.1", features = ["library"] }}
cw-storage-plus = "1.2"
serde = {{ version = "1", features = ["derive"] }}
serde_json = "1"
anyhow = "1"
prost = "0.11.5"
astroport = {{ path = "/repo/packages/astroport" }}
"""
for x in deps:
    f = ', features = ["library"]' if x in LIB else ""
    toml += f'astroport-{x} = {{ path = "/repo/{PATHS[x]}"{f} }}\n'
toml += """[profile.dev]
opt-level = 0
debug = false
overflow-checks = true
incremental = false
"""
open(os.path.join(d, "Cargo.toml"), "w").write(toml)
shutil.copy(os.path.join(VERIF, "harness", "Cargo.lock"), d)
shutil.copy(os.path.join(VERIF, "tools", "demo", "host.rs"), os.path.join(d, "src"))
if "factory" in deps:
    shutil.copy(os.path.join(VERIF, "tools", "demo", "world.rs"), os.path.join(d, "src"))
open(os.path.join(d, "src", "main.rs"), "w").write(main)
open(os.path.join(d, "demo.sh"), "w").write(f"""#!/bin/bash
# Runs the scenario in src/main.rs on /repo's contracts: exit 0 when they behave, nonzero otherwise.
HERE=$(cd "$(dirname "$0")" && pwd)
W=/tmp/demo_{i}
rm -rf "/tmp/demo_{i}" && mkdir -p "$W" && cp -r "$HERE"/src "$HERE"/Cargo.toml "$HERE"/Cargo.lock "$W"/ || exit 3
source /opt/vp/env.sh >/dev/null 2>&1
unset CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG RUSTFLAGS
export CARGO_TARGET_DIR="$W/target"
cd "$W" && cargo run -q --offline 2>&1 | grep -v "^warning" | tail -20
rc=${{PIPESTATUS[0]}}
rm -rf "/tmp/demo_{i}"
exit $rc
""")
os.chmod(os.path.join(d, "demo.sh"), 0o755)
