#!/usr/bin/env python3
"""Writes the façade crates and the manifests that compile the repository's own sources.
Run by hand when the crate set changes; the output is committed."""
import os, tomllib, glob
WS = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
FACADES = {
 'frame-support': 'frame_support', 'frame-system': 'frame_system', 'sp-core': 'sp_core', 'sp-runtime': 'sp_runtime', 'sp-std': 'sp_std',
 'sp-io': 'sp_io', 'parity-scale-codec': 'codec', 'scale-info': 'scale_info', 'sp-arithmetic': 'sp_arithmetic', 'sp-api': 'misc::sp_api',
 'sp-application-crypto': 'sp_application_crypto', 'sp-keystore': 'sp_keystore', 'sp-staking': 'misc::sp_staking',
 'sp-consensus-babe': 'misc::sp_consensus_babe', 'pallet-balances': 'pallet_balances', 'pallet-assets': 'pallet_assets',
 'pallet-evm': 'evm::pallet_evm', 'fp-evm': 'evm::fp_evm', 'evm': 'evm::evm', 'pallet-timestamp': 'pallet_timestamp', 'ethabi': 'ethabi', 'pallet-proxy': 'pallet_proxy', 'ethereum-types': 'ethereum_types', 'primitive-types': 'ethereum_types', 'pallet-sudo': 'pallet_sudo', 'pallet-transaction-payment': 'pallet_transaction_payment', 'num_enum': 'misc::num_enum', 'affix': 'misc::affix', 'sha3': 'misc::digest',
 'impl-serde': 'misc::impl_serde', 'libsecp256k1': 'misc::libsecp256k1', 'ripemd': 'misc::digest', 'sha2': 'misc::digest',
 'pallet-scheduler': 'pallet_scheduler', 'xrpl-codec': 'xrpl_codec', 'rustc-hex': 'misc::rustc_hex', 'parking_lot': 'misc::parking_lot',
 'pallet-staking': 'pallet_staking', 'pallet-staking-reward-curve': 'misc::reward_curve', 'frame-election-provider-support': 'misc::election', 'pallet-session': 'rt_stubs::pallet_session', 'pallet-im-online': 'rt_stubs::pallet_im_online', 'pallet-babe': 'rt_stubs::pallet_babe', 'pallet-election-provider-multi-phase': 'rt_stubs::pallet_election_provider_multi_phase', 'pallet-utility': 'rt_stubs::pallet_utility', 'doughnut-rs': 'doughnut::doughnut_rs', 'trn-pact': 'doughnut::trn_pact', 'xrpl_types': 'xrpl_sdk::xrpl_types', 'xrpl_binary_codec': 'xrpl_sdk::xrpl_binary_codec', 'fp-self-contained': 'fp_self_contained', 'frame-executive': 'fp_self_contained::frame_executive', 'pallet-ethereum': 'rt_stubs::pallet_ethereum', 'pallet-evm-precompile-blake2': 'rt_stubs::std_precompiles', 'pallet-evm-precompile-bn128': 'rt_stubs::std_precompiles', 'pallet-evm-precompile-modexp': 'rt_stubs::std_precompiles', 'pallet-evm-precompile-sha3fips': 'rt_stubs::std_precompiles', 'pallet-evm-precompile-simple': 'rt_stubs::std_precompiles', 'pallet-bags-list': 'misc::nothing',
}
MACRO_FACADES = {'hex-literal': 'hex', 'impl-trait-for-tuples': 'impl_for_tuples'}
EXTRA = {}
exec(open(os.path.join(WS, 'gen_extra.py')).read()) if os.path.exists(os.path.join(WS, 'gen_extra.py')) else None
SKIP = {'frame-benchmarking', 'sp-blockchain', 'jsonrpsee', 'frame-try-runtime'}
REAL = {'serde': 'serde = { version = "1", features = ["derive"] }', 'serde_json': 'serde_json = "1"', 'log': 'log = "0.4"', 'hex': 'hex = { version = "0.4", features = ["serde"] }',
        'syn': 'syn = { version = "1", features = ["extra-traits", "fold", "full", "visit"] }', 'quote': 'quote = "1"', 'proc-macro2': 'proc-macro2 = "1"', 'similar-asserts': None,
        'typenum': 'typenum = "1"'}
NAME = {'parity-scale-codec': 'codec'}
# crates of the repository that are compiled
CRATES = [l.strip() for l in open(os.path.join(WS, 'crates.txt')) if l.strip() and not l.startswith('#')]

def w(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p) or open(p).read() != s:
        open(p, 'w').write(s)

ROOT = tomllib.load(open(REPO + '/Cargo.toml', 'rb'))['workspace']['dependencies']
loc = {}
for f in glob.glob(REPO + '/**/Cargo.toml', recursive=True):
    if '/target/' in f: continue
    d = tomllib.load(open(f, 'rb'))
    if 'package' in d: loc[d['package']['name']] = (os.path.dirname(f), d)
members = ['shim/sub-macros', 'shim/sub']
for n, m in FACADES.items():
    w(f'{WS}/shim/f/{n}/Cargo.toml', f'[package]\nname = "{n}"\nversion = "0.0.0"\nedition = "2021"\n[features]\ndefault = []\n[dependencies]\nsub = {{ path = "../../sub" }}\n')
    w(f'{WS}/shim/f/{n}/src/lib.rs', f'#![allow(unused_imports)]\npub use sub::{m}::*;\n')
    members.append(f'shim/f/{n}')
for n, m in MACRO_FACADES.items():
    w(f'{WS}/shim/f/{n}/Cargo.toml', f'[package]\nname = "{n}"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\nsub-macros = {{ path = "../../sub-macros" }}\n')
    w(f'{WS}/shim/f/{n}/src/lib.rs', f'pub use sub_macros::{m};\n')
    members.append(f'shim/f/{n}')
def dep(k, v, missing):
    if isinstance(v, dict) and v.get('workspace'): v = ROOT[k]
    n = v.get('package', k) if isinstance(v, dict) else k
    if n in SKIP: return None
    if n in REAL: return REAL[n]
    alias = k
    if n in loc:
        if n not in CRATES:
            missing.append(n); return None
        return f'{alias} = {{ path = "../{n}", package = "{n}" }}'
    if n in FACADES or n in MACRO_FACADES or n in EXTRA:
        return f'{alias} = {{ path = "../../shim/f/{n}", package = "{n}" }}'
    missing.append(n); return None
for c in CRATES:
    dirn, d = loc[c]
    out = f'# generated by gen.py\n[package]\nname = "{c}"\nversion = "0.0.0"\nedition = "2021"\nautobins = false\nautotests = false\nautobenches = false\nautoexamples = false\nbuild = false\n[lib]\npath = "{dirn}/src/lib.rs"\n'
    if d.get('lib', {}).get('proc-macro'): out += 'proc-macro = true\n'
    out += '[features]\ndefault = ["std"]\n'
    feats = set(d.get('features', {})) - {'default'}
    for f in sorted(feats | {'std'}): out += f'{f} = []\n'
    out += '[dependencies]\nsub = { path = "../../shim/sub" }\n'
    missing = []
    seen = set()
    lines = []
    for k, v in sorted(d.get('dependencies', {}).items()):
        l = dep(k, v, missing)
        if l: lines.append(l); seen.add(k)
    if 'serde' not in seen: lines.append(REAL['serde'])
    out += '\n'.join(lines) + '\n[dev-dependencies]\n'
    for k, v in sorted(d.get('dev-dependencies', {}).items()):
        l = dep(k, v, missing)
        if l and k not in seen: out += l + '\n'
    out += '[lints.rust]\nwarnings = "allow"\nunexpected_cfgs = "allow"\n'
    w(f'{WS}/repo/{c}/Cargo.toml', out)
    members.append(f'repo/{c}')
    if missing: print(c, 'missing:', sorted(set(missing)))
checks = sorted(os.path.relpath(os.path.dirname(p), WS) for p in glob.glob(f'{WS}/checks/*/Cargo.toml'))
members += checks
w(f'{WS}/Cargo.toml', '[workspace]\nresolver = "2"\nmembers = [\n' + ''.join(f'\t"{m}",\n' for m in members) + ''']
[profile.dev]
opt-level = 1
debug = "line-tables-only"
overflow-checks = false
debug-assertions = false
[profile.test]
opt-level = 1
overflow-checks = true
debug-assertions = true
''')
