DEFAULT_TECH = "property-based testing: generated call histories against an executable oracle, with shrinking"
DEFAULT_NOTE = "The repository's own pallet source runs in an in-memory runtime; each step of thousands of generated histories is compared with an independent oracle. Bounded exploration: it shows absence of violations only on what was generated. Trusts the stand-in FRAME/Substrate crates (validated by the repository's own unit tests passing on them)."
REASONS = {}
_W = "proptest histories, shrunk to a replay file, against "
TECH = {
 **{i: _W + "an exact big-integer model of pools, shares and swaps" for i in ("C01", "C02", "C03")},
 **{i: _W + "an ownership and permission model of collections" for i in ("C04", "C05")},
 **{i: _W + "a balance and permission model of semi-fungible tokens" for i in ("C06", "C07")},
 **{i: _W + "an exact model of listings, locks, holds and payouts" for i in ("C08", "C09", "C10")},
 **{i: _W + "an exact model of sales, vaults and vouchers" for i in ("C11", "C12")},
 "C13": _W + "a model of holds per (pallet, account, asset)",
 "C14": "proptest over (counter, parachain id) pairs and histories of supply calls against a supply model",
 "C15": _W + "an issuance model of currencies and outstanding imbalances",
 "C16": _W + "a model of approvals, by extrinsic and through the EVM precompiles",
 "C17": _W + "a model of futurepass holders, delegates and deposits",
 "C18": "proptest over nested calls and proxy types against a who-may-run-what oracle, observed by effect",
 "C19": _W + "an exact swap price and balances before and after, in the production wiring",
 "C21": _W + "a model of pending, credited, challenged and pruned hashes",
 "C22": _W + "the emitted payloads, decoded by an independent XRPL parser",
 **{i: _W + "a model of claims, votes, ids and bonds" for i in ("C24", "C25")},
 "C26": _W + "a model of proof ids, pauses and set changes, observed in the digest log",
 "C45": _W + "a model of requests and distinct notary reports",
 "C27": _W + "a conservation model of deposits, withdrawals and delays",
 "C28": _W + "a model of mapped, blocked and burned tokens; malformed messages by mutation",
 "C29": _W + "exact sums of registered rewards and vault shares",
 "C30": _W + "a model of enabled collections, data and fees",
 "C31": _W + "a model of mappings, mints and fees",
 "C33": "proptest over every call and transaction form of the production runtime against a block-list predicate",
 "C35": "metamorphic proptest: same final state whatever the limits, plus an in-order visit model",
 "C36": _W + "a model of the pot and the era counter",
 "C37": "differential proptest against independent key and address derivation, with mutated signatures",
 "C38": "proptest over witness orders against sets of distinct validators per event and digest",
 "C39": "differential proptest: precompile call in a real EVM against the native call in a rolled-back layer",
 "C40": "round-trip and malformed-input fuzzing against an independent ABI encoder",
 "C41": "generated programs compiled with the macro, against an independent Keccak",
 "C44": "proptest against big-integer arithmetic, with monotonicity and round-trip relations",
 "C46": "differential proptest: XRPL-wrapped transaction against the same call signed natively",
 "C47": "differential proptest: doughnut transaction against the same call made by the issuer",
 "C48": "differential proptest: DEX precompile call in the EVM against the DEX itself in a rolled-back layer",
 "C49": "differential proptest: precompile call in the EVM against the native call in a rolled-back layer",
 "C50": "differential proptest: futurepass precompile call against the native call or the inner call itself",
 "C54": "stateful proptest: creations by every route against a model of ids and addresses; round trips of ids and addresses",
 "C53": "stateful proptest: messages through the production router and claims against a model of their effects and storage confinement",
 "C52": "stateful proptest: disabled calls by every signature scheme and nesting of wrappers, invariant over storage",
 "C51": "stateful proptest: EVM transactions through the production fee adapter against a ledger in wei and drops",
}
