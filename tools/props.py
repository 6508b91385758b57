#!/usr/bin/env python3
"""Source of properties.jsonl. Run: python3 tools/props.py > properties.jsonl"""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=m[0],where=m[1]) for m in mech],
        state=[dict(name=s[0],meaning=s[1],where=s[2]) for s in (state or [])],
        observe_at=observe or [],hook_needed=None)))
H=["histories","inputs"]

p("C01","DEX pool reserves are always backed by the pool account",
 "After every DEX call, whether it succeeds or fails, each trading pair's recorded reserves never exceed the balances its pool account really holds, and equal them whenever no one has sent tokens to the pool account directly since the last call on that pair. Adding liquidity, removing liquidity and swapping create or destroy none of the two traded assets, and a failing call changes nothing.",
 H,"every sequence of add-liquidity, remove-liquidity, exact-supply and exact-target swaps, fee-receiver changes, enable/disable and direct transfers, by any accounts with any amounts",
 "the tests run a few fixed sequences with hand-computed amounts; the relation between recorded reserves and real balances has to hold after every history",
 ["pallet/dex/src/lib.rs","pallet/dex/src/types.rs"],[("reserves re-read from balances after each transfer","do_add_liquidity, do_remove_liquidity, _swap"),("storage transaction per call","#[transactional]")],
 ["LiquidityPool vs MultiCurrency::balance of the pool address"])
p("C02","DEX swaps follow the constant-product price and the caller's limits",
 "A swap pays out exactly the constant-product amount after the 0.3% input fee for every hop of its path (rounded in the pool's favour), so the product of a pool's reserves never decreases. An exact-supply swap spends exactly the stated input and delivers at least the stated minimum; an exact-target swap delivers exactly the stated output and spends at most the stated maximum. A swap past its deadline, through a disabled or empty pair, or with a path of invalid length is refused and changes nothing.",
 H,"all reserves, amounts, paths of up to three assets, limits and deadlines",
 "unit tests check a handful of amounts; rounding direction and fee must be right for every reserve and amount including the extremes of u128",
 ["pallet/dex/src/lib.rs"],[("get_amount_out / get_amount_in","lib.rs"),("K check","_swap")],["swap results, balances of trader/recipient/pools"])
p("C03","DEX liquidity shares are proportional and cannot be diluted",
 "A liquidity provider receives LP shares in proportion to what they add (the integer square root of the product for the first deposit, with 1000 units locked forever), at the pool's current ratio and within their stated minimums. Removing liquidity pays out exactly the share's pro-rata part of the pool rounded down, to the stated recipient and in the order the assets were named, and no liquidity operation lowers what one remaining LP share is worth. While a fee receiver is set, swaps mint it shares for at most one sixth of the growth of the square root of the product, and nothing otherwise.",
 H,"all sequences of liquidity operations and swaps with any amounts, both orders of naming the two assets, fee receiver on or off",
 "depends on reserves and total shares accumulated over an arbitrary history; tests use fresh pools with round numbers",
 ["pallet/dex/src/lib.rs"],[("share computation","do_add_liquidity/do_remove_liquidity"),("mint_fee","lib.rs")],["LP balances and total issuance"])
p("C04","Each NFT has exactly one owner and collections never over-issue",
 "At every point each minted and not yet burned NFT belongs to exactly one account, serial numbers are never reused, a collection's issuance counter equals the tokens in existence, and neither its maximum issuance nor the per-collection limit is ever exceeded. Per-owner balances and paginated token listings agree with that ownership. A failing call changes nothing.",
 H,"every sequence of create, mint, bridged mint, transfer, burn, set-max-issuance calls by any callers with any arguments",
 "tests exercise short fixed scenarios; ownership lists live in nested bounded vectors that only diverge after longer mixed histories",
 ["pallet/nft/src/lib.rs","pallet/nft/src/impls.rs","pallet/nft/src/types.rs"],[("CollectionInformation owned_tokens","types.rs"),("pre_mint/do_mint/do_transfer/do_burn","impls.rs")],["token_owner, token_balance_of, owned_tokens, CollectionInfo"])
p("C05","NFT operations are permitted only to who may perform them",
 "Only a token's owner can transfer or burn it, and not while it is locked or the collection's flags forbid that operation. Only the collection owner can change its settings or mint to it, except that anyone may mint while public minting is enabled by paying exactly the configured price to the collection owner for the whole quantity. Royalties can never be set above 100% and the URI, maximum issuance and royalties follow their change rules.",
 H,"all callers, collections with any owner, flags, locks, fee settings and histories",
 "permission rules are a product of caller, flag, lock and fee state; tests sample a few combinations",
 ["pallet/nft/src/lib.rs","pallet/nft/src/impls.rs"],[("ensure_signed + is_collection_owner","lib.rs"),("UtilityFlags/TokenLocks checks","impls.rs")],["dispatch results, balances"])
p("C06","SFT balances always add up to the token's issuance",
 "For every semi-fungible token the free and reserved balances of all owners always sum to its recorded issuance, which never exceeds its maximum issuance; mint and burn change the sum by exactly the stated amounts and transfers leave it unchanged. Reserved balance cannot be spent, burned or transferred until it is released to the same owner. A failing call, including one that fails part-way through several serials, changes nothing.",
 H,"every sequence of token creation, mint, transfer, burn, reserve and release over several collections and owners, with duplicates and zero amounts in the lists",
 "the tests check a few calls; multi-serial calls with duplicates and failures part-way are histories they do not sample",
 ["pallet/sft/src/lib.rs","pallet/sft/src/impls.rs","pallet/sft/src/types.rs"],[("SftTokenInformation::add/remove/reserve/free","types.rs")],["TokenInfo"])
p("C07","SFT operations are permitted only to who may perform them",
 "Only holders can transfer or burn their own free balance and only the collection owner can create tokens, mint, or change settings, except that anyone may mint while public minting is enabled by paying exactly the configured price times the total quantity to the collection owner. Transfer, burn and mint are refused while the collection's flags forbid them. Royalties, names, URIs and maximum issuance can only be set to valid values.",
 H,"all callers, flags, fee settings and histories",
 "permission rules are a product of caller, flag and fee state; tests sample a few combinations",
 ["pallet/sft/src/lib.rs","pallet/sft/src/impls.rs"],[("owner checks and flags","impls.rs")],["dispatch results, balances"])
p("C08","A listed NFT stays locked with its seller until its listing closes",
 "While a fixed-price or auction listing is open every token in it is owned by the seller and locked, so it can be neither transferred, burned nor listed again; as soon as the listing is bought, cancelled, settled or expires, every token in it is unlocked and the listing no longer exists anywhere. No token is ever locked without an open listing that contains it.",
 H,"every interleaving of sell, auction, buy, bid, cancel, offer, accept, transfer, burn and block progress",
 "locks and listings live in two pallets; agreement must hold over whole histories and at expiry blocks",
 ["pallet/marketplace/src/lib.rs","pallet/marketplace/src/impls.rs","pallet/nft/src/impls.rs"],[("TokenLocks / Listings / OpenCollectionListings / ListingEndSchedule","impls.rs")],["storage of both pallets"])
p("C09","Bids and offers are held exactly and always refundable",
 "The funds held for the marketplace equal exactly the current highest bid of each open auction plus every open offer, account by account. An outbid bidder, a cancelled offer and a cancelled auction get back exactly what was held, a winning bid or accepted offer is spent exactly once, and no one can withdraw or use another account's held funds.",
 H,"every interleaving of bids, outbids, offers, cancellations, acceptances and auction closings by several accounts in several assets",
 "conservation over histories with several open auctions and offers per account is not sampled by tests",
 ["pallet/marketplace/src/impls.rs","pallet/assets-ext/src/lib.rs"],[("place_hold/release_hold/spend_hold","impls.rs")],["assets-ext holds and balances"])
p("C10","A marketplace sale pays everyone exactly once and delivers the tokens",
 "A completed sale moves all the listed tokens to the buyer and charges the buyer exactly the price, of which each royalty, marketplace and network beneficiary receives their percentage rounded to the nearest unit (never more than what is left) and the seller receives the rest, so that nothing is created or lost. A sale that cannot pay or deliver changes nothing and leaves buyer, seller and holds as they were. Prices change only by the seller, and buyers restricted by the listing are the only ones who can buy.",
 H,"all prices, royalty schedules, marketplace fees, bundles and failure points of a sale",
 "rounding of several percentages and failures in the middle of settlement are input-dependent; tests use round values",
 ["pallet/marketplace/src/impls.rs","primitives/src/nft.rs"],[("calculate_royalty_payouts, process_payment_and_transfer, calculate_bundle_royalties","impls.rs")],["balances, ownership, events"])
p("C11","Crowdsale contributions are conserved and paid out pro rata",
 "While a sale is open its vault holds exactly the sum of what participants paid in. When it closes every participant ends up with vouchers in proportion to their contribution, never more vouchers than NFTs on sale in total, and each contribution is either kept for the seller or covered by vouchers as the sale's rules say, exactly once. No account receives rewards twice, and a failing call changes nothing.",
 H,"all numbers of participants, contribution amounts, supplies and interleavings of participation, block progress, distribution and claims",
 "the pro-rata arithmetic and the multi-block distribution depend on contributions and schedule that tests only sample",
 ["pallet/crowdsale/src/lib.rs","pallet/crowdsale/src/impls.rs"],[("calculate_voucher_rewards, close_sales_at, claim_voucher","impls.rs/lib.rs")],["vault balances, voucher balances, SaleParticipation"])
p("C12","Crowdsale vouchers redeem one-for-one for NFTs",
 "Redeeming vouchers burns exactly that many whole vouchers of the caller and mints exactly that many NFTs of the sale's collection to the caller, only for a sale that has reached the redemption stage. The collection stays under the sale's vault while the sale runs, only the sale admin can enable it or act through it, and sale status only moves forward through its stages.",
 H,"all histories of a sale's calls by any callers",
 "life-cycle property over call sequences",
 ["pallet/crowdsale/src/lib.rs"],[("redeem_voucher, enable, proxy_vault_call","lib.rs")],["voucher balances, nft ownership, SaleInfo"])
p("C13","Asset holds are exact, per pallet, and fully backed",
 "The holding account's balance of each asset always equals the sum of all recorded holds of that asset. Placing a hold moves exactly the amount out of the owner's balance, releasing returns exactly the amount to the owner, spending pays out exactly the stated amounts, and none of them can touch a hold placed by another pallet or for another account or exceed what is held. A failing hold operation changes nothing.",
 H,"all sequences of place, release and spend by several pallets, accounts and assets with any amounts",
 "tests run single operations; sortedness and merge of the per-account hold list matters only over sequences",
 ["pallet/assets-ext/src/lib.rs"],[("Hold impl","lib.rs")],["Holds, balances of the pallet account"])
p("C14","Assets get unique ids and only authorised supply changes",
 "Every asset and collection created gets an identifier no earlier one has, composed of the running counter and the parachain id such that both can be recovered, and creation fails instead of reusing an id when the counter is exhausted. The native asset can be neither minted nor burned by a call, other assets only by their owner, creation reserves exactly the configured deposit, and transfers conserve each asset's total issuance.",
 H,"all counters and parachain ids; all sequences of create, mint, burn and transfer calls by any callers",
 "bit packing and issuance must be right for all ids and histories",
 ["pallet/assets-ext/src/lib.rs","pallet/common/src/utils.rs"],[("next_asset_uuid","utils.rs"),("create/mint/burn_from","lib.rs")],["asset ids, issuance"])
p("C15","Fungible currency adapters conserve issuance through imbalances",
 "Through the currency interface used for fees and staking rewards, withdrawing and depositing change the account by exactly the amount and, once every returned imbalance has been dropped, resolved or offset, total issuance equals the sum of all balances. Splitting, merging and offsetting imbalances conserves their value, slashing and transfers never take more than is available, and operations on one asset never change another.",
 H,"all sequences of withdraw, deposit, slash, transfer, burn, issue and imbalance split/merge/offset/drop",
 "imbalance bookkeeping only goes wrong over compositions that tests do not enumerate",
 ["pallet/assets-ext/src/impls.rs","pallet/assets-ext/src/imbalances.rs"],[("Drop for imbalances","imbalances.rs"),("Currency impl","impls.rs")],["total issuance vs balances"])
p("C16","Token approvals grant exactly what the owner approved",
 "A spender may move an NFT only if it is the owner, the token's approved address or an operator approved for the whole collection by the current owner, and a single-token approval disappears when the token is transferred, burned or revoked. A fungible allowance never lets a spender move more in total than the owner's last approval, decreasing exactly by each amount used. Only the owner, or for a single NFT an operator the owner approved for the whole collection, can grant, and only the owner can revoke.",
 H,"all sequences of approve, approve-for-all, revoke, transfer and spend",
 "approval state interacts with transfers over histories",
 ["pallet/token-approvals/src/lib.rs"],[("ERC20Approvals/ERC721Approvals/ForAll","lib.rs")],["storage and is_approved_or_owner"])
p("C17","Each account holds at most one futurepass and controls its delegates",
 "An account is the holder of at most one futurepass, each futurepass has one holder, and a futurepass address never repeats. A delegate is added only with the delegate's own unexpired signature over this futurepass, proxy type and deadline and on the holder's authority, never as holder-level, and is removed only by the holder, itself or an authorised delegate. Transferring a futurepass removes every delegate, moves holder status to the new holder, and leaves the old holder without access.",
 H,"all histories of create, register, unregister and transfer, with valid and invalid signatures and deadlines",
 "signature checks and holder maps must agree over any history; tests sample a few",
 ["pallet/futurepass/src/lib.rs"],[("Holders map, ProxyProvider","lib.rs")],["Holders, proxies"])
p("C18","Calls through a futurepass run only for permitted delegates",
 "A call made through a futurepass executes with the futurepass as origin only if the caller is its holder or a registered delegate whose proxy type admits the call, and never if the call is on the deny list, however deeply it is nested. Otherwise nothing executes.",
 H,"all callers, delegates, proxy types and nested calls",
 "nesting and permission combinations are unbounded",
 ["pallet/futurepass/src/lib.rs","runtime/src/impls.rs"],[("proxy_extrinsic, BlacklistedCallValidator","lib.rs")],["dispatch results and effects"])
p("C19","Paying fees in another asset costs no more than the stated maximum",
 "When a caller names a fee asset, the network fee is obtained by swapping at most the stated maximum of that asset, the whole fee is charged, and otherwise the transaction is rejected without taking anything. The inner call runs as the caller and fees are never swapped twice or for calls that do not ask for it.",
 H,"all fees, maximum payments, paths, pool states and inner calls including EVM and nested proxy calls",
 "depends on pool state and fee computation over all inputs",
 ["pallet/fee-proxy/src/lib.rs","pallet/fee-proxy/src/impls.rs"],[("withdraw_fee","impls.rs")],["balances before and after"])
p("C21","XRPL deposits are credited exactly once, after the challenge period",
 "An XRPL transaction hash submitted by a registered relayer mints its amount to its named recipient exactly once, only after the challenge period and only if it was not challenged, never before. The same hash is never credited twice however often it is resubmitted, and hashes below the pruned window are refused. The map between assets and XRPL currencies stays one-to-one, and a currency that was unmapped or replaced no longer credits anything.",
 H,"all interleavings of submissions, challenges, duplicates, block progress and pruning",
 "exactly-once processing over histories and window movement",
 ["pallet/xrpl-bridge/src/lib.rs"],[("submit_transaction, process_xrp_tx, SettledXRPTransactionDetails","lib.rs")],["balances, events, settled storage"])
p("C22","XRPL withdrawals burn what they send and use each ticket once",
 "A withdrawal takes exactly the requested amount plus the door fee from the caller and asks for one signed XRPL payment of exactly the amount taken to the requested destination (issued currencies are rounded down to the sixteen significant digits the XRPL keeps, losing less than one whole unit; an XRP amount the XRPL cannot represent is refused), and a failing withdrawal changes nothing. Every outgoing door transaction (payment, NFT offer, signer list) uses a different ticket sequence from the configured allocation in order, never outside it. Withdrawals above the delay threshold are paid exactly once after the delay and not before.",
 H,"all withdrawal histories, ticket allocations and delays",
 "ticket allocation state machine and delay schedule over histories",
 ["pallet/xrpl-bridge/src/lib.rs","pallet/xrpl-bridge/src/types.rs"],[("get_door_ticket_sequence, process_withdrawal, process_delayed_payments","lib.rs")],["DoorTicketSequence, sent tx blobs, balances"])
p("C24","Bridge events run only after enough distinct validators agree, once",
 "An Ethereum event reaches its handler only after its own challenge period without a successful challenge, and at most once. A challenged event is accepted only when at least the notarization threshold (66%) of the current notaries voted it valid, and rejected only when that can no longer be reached; it is decided at the latest when every current notary has voted, also when a change of the set leads to that; each current notary votes once per claim, and the votes of notaries that leave the set are dropped. Event ids already handled are refused; every other id after the first one processed is either pending or can still be supplied in exactly one way (as a new event or as a missing one, also again after a claim for it fell) unless governance cleared it.",
 H,"all interleavings of submissions, challenges, votes by any validators, block progress and missing ids",
 "threshold and exactly-once behaviour over vote histories",
 ["pallet/ethy/src/lib.rs","pallet/ethy/src/impls.rs"],[("handle_event_notarization, process_valid_claim queue","impls.rs/lib.rs")],["router calls, storage"])
p("C25","Bridge relayer and challenger bonds are conserved",
 "Relayer deposits and challenge bonds are reserved exactly, returned in full to the honest side and awarded exactly once to the winner of a challenge (also when the relayer has meanwhile gone), so that no balance is created, lost or left reserved after its claim is settled.",
 H,"all histories of deposits, withdrawals, submissions, challenges and settlements",
 "conservation over histories",
 ["pallet/ethy/src/lib.rs","pallet/ethy/src/impls.rs"],[("deposit_relayer_bond, submit_challenge, handle_*_claim","impls.rs")],["reserved balances"])
p("C26","Bridge messages get consecutive proof ids and survive pauses",
 "Every message sent over the bridge gets its own id, one higher than the last; while the bridge is paused requests are queued and later issued, each exactly once. A validator-set change is itself signed by the outgoing set (unless governance has paused the bridge) and the set id advances by one per change. The XRPL door signers are exactly the whitelisted current notaries, up to the maximum number of door keys.",
 H,"all interleavings of messages, pauses, authority changes and block progress",
 "ordering over histories",
 ["pallet/ethy/src/impls.rs","pallet/ethy/src/lib.rs"],[("do_request_event_proof, handle_authorities_change","impls.rs")],["digest logs, storage"])
p("C45","State-oracle requests are answered once, by the notaries' agreement",
 "An Ethereum state-oracle request is answered exactly once: with a value that at least the threshold of the current notaries reported, or as failed as soon as, and only when, no value can reach the threshold any more. Each notary's report counts once, and a report for a request that is unknown or already answered has no effect.",
 H,"all interleavings of requests and notaries' reports with any mix of values, errors and repeats",
 "the outcome depends on the whole vote history and on the number of notaries; tests sample unanimous votes",
 ["pallet/ethy/src/impls.rs","pallet/ethy/src/lib.rs"],[("handle_call_notarization, checked_eth_call","impls.rs")],["callbacks to the state oracle subscriber"])
p("C27","The ERC20 peg mints on deposit exactly what it burns on withdrawal",
 "For every bridged ERC20, tokens in circulation plus delayed payments always equal deposits received minus withdrawals requested; tokens native to this chain move in and out of the peg's own account instead. Delayed deposits and withdrawals are paid exactly once, after the delay and not before, and no deposit or withdrawal is accepted while deposits or withdrawals, respectively, are inactive (payments already delayed are still paid).",
 H,"all interleavings of deposits, withdrawals, delays, block progress, claims and settings",
 "conservation over histories with weight-limited processing",
 ["pallet/erc20-peg/src/lib.rs"],[("do_deposit, do_withdrawal, process_delayed_payment, on_idle","lib.rs")],["balances, bridge messages, DelayedPayments"])
p("C28","The NFT peg mints each bridged token once and returns it intact",
 "A bridged NFT deposit mints exactly the deposited serials of the mapped collection to the destination, withdrawing burns them and sends a message naming exactly the same source contract and ids, and a token can be deposited again afterwards. Tokens that cannot be minted are recorded as blocked, without affecting the other collections of the message, and can be reclaimed exactly once by their owner; malformed messages are rejected without effect and without panicking.",
 H,"all deposit messages (well-formed and arbitrary bytes) and all histories of deposits, withdrawals and reclaims",
 "byte-level decoding over all inputs; round trips over histories",
 ["pallet/nft-peg/src/lib.rs","pallet/nft-peg/src/types.rs"],[("decode_deposit_event, do_deposit, do_withdrawal","lib.rs")],["ownership, sent messages"])
p("C29","Vortex rewards are paid exactly and never twice",
 "Each account registered for a distribution is owed the amount last registered for it; exactly the sum of those amounts is minted when the distribution starts, and each registered account is paid its amount exactly once, over however many payout batches, after which the distribution is done. Redeeming vortex burns exactly the redeemed amount and pays that amount's share (amount / total vortex issuance, rounded down) of each listed asset in the vault. Triggering moves the fee pot's listed assets and the root pot's native token to the vault. Only root or the admin changes a distribution, in status order Enabled, Triggered, Paying, Done (Disabled at any time).",
 H,"all rewards, prices, accounts, payout batch sizes and call histories (vortex issuance below 2^127)",
 "arithmetic and pagination over arbitrary sets",
 ["pallet/vortex-distribution/src/lib.rs"],[("do_vtx_distribution_trigger, pay_unsigned, redeem_tokens_from_vault","lib.rs")],["balances, VtxDistOrderbook"])
p("C30","NFI data is written only by the relayer and only for enabled tokens",
 "NFI data for a token is stored only by the configured relayer and is erased when the token is burned; requests for data are accepted only from the token or collection owner for existing tokens of enabled collections and charge exactly the configured fee times the tokens requested.",
 H,"all callers, collections, fees and histories","permission and fee product",
 ["pallet/nfi/src/lib.rs"],[("submit_nfi_data, manual_data_request, pay_mint_fee","lib.rs")],["NfiData, balances"])
p("C31","XLS-20 mappings are set once per token by the relayer",
 "Every root token has at most one XLS-20 id, written only by the relayer, or by the arrival of the token from XRPL, for tokens that exist, and never overwritten while the token exists; minting into such a collection charges exactly the fee per token and requests exactly the minted serials. A batch that contains an invalid mapping changes nothing.",
 H,"all batches, callers and histories","batch validation over all inputs",
 ["pallet/xls20/src/lib.rs"],[("fulfill_xls20_mint, pay_xls20_fee","lib.rs")],["Xls20TokenMap, balances, events"])
p("C33","Maintenance mode blocks exactly what was blocked and cannot lock itself",
 "With maintenance mode on, every signed transaction, whether signed in the native way, by an XRPL key or made with a doughnut, is refused except those of the pallets that can never be blocked (maintenance mode, sudo, timestamp, im-online, Ethereum bridge), and so is every EVM call and creation. Independently of it a blocked account cannot sign a transaction (in any of these ways, nor be the issuer in whose name a doughnut transaction acts) or act in the EVM; a blocked call or pallet does not run, on its own or inside batches, proxies, futurepasses and fee preferences; a blocked EVM target cannot be called by an EVM transaction, directly or through fee preferences; all this until it is unblocked, names compare without regard to case, and everything else keeps working. The maintenance and sudo calls themselves can never be blocked and only root can change any of it.",
 H,"all sequences of block/unblock operations and all attempted calls","combinatorial state",
 ["pallet/maintenance-mode/src/lib.rs"],[("call_paused, validate_evm_call","lib.rs")],["validation results"])
p("C35","Multi-block migrations visit every item once and respect weight",
 "A migration in progress advances by at most its configured items and weight per block, resumes exactly where it stopped, completes exactly once, and while it runs calls that need migrated state are refused. Converting storage item by item yields the same final state whatever the block limits and weights were.",
 ["schedules","histories","configurations"],"all block limits, delays, remaining weights and enable/disable schedules","schedule-dependent resume logic",
 ["pallet/migration/src/lib.rs","runtime/src/migrations/nfi.rs"],[("migrate","lib.rs")],["LastKey, Status, migrated storage"])
p("C36","The transaction fee pot accounts for every fee it receives",
 "Fees and slashes paid into the pot increase its balance and the era counter by exactly the amount, the counter resets to zero when an era pays out, and no fee is lost or counted twice.",
 H,"all sequences of deposits and era changes","accounting over histories",
 ["pallet/tx-fee-pot/src/lib.rs"],[("on_nonzero_unbalanced, era_payout","lib.rs")],["pot balance and counter"])
p("C37","Signatures verify only for the account that signed",
 "A signature recovers to the signer's own address and verifies for no other account or message, for every key and message and for both plain and Ethereum-prefixed signing. Malformed signatures are rejected without panicking, and addresses derived from the same public key agree everywhere they are computed.",
 ["inputs"],"all keys, messages and byte strings","cryptographic round trip over all inputs",
 ["primitives/src/signature.rs"],[("EthereumSignature::verify, AccountId20","signature.rs")],["verify results"])
p("C38","Event-proof signatures are counted once per current validator",
 "The relayer gadget reports an event proof complete only once at least the threshold of distinct current validators have given a signature for that same event and digest, each counted once however often and in whatever order witnesses arrive, and never counts unknown validators or witnesses for a different digest. When the validator set changes, signatures of validators that left no longer count, and every reported signature is at its validator's position in the current set. Once complete, an event does not complete again.",
 ["histories","schedules","inputs"],"all arrival orders, duplicates, conflicting digests and validator-set changes","message-order property",
 ["ethy-gadget/src/witness_record.rs","primitives/src/ethy.rs"],[("WitnessRecord::note_event_witness, has_consensus","witness_record.rs")],["consensus results, signatures_for"])
p("C40","EVM precompile data encoding round-trips and rejects malformed input",
 "Encoding any supported value as Solidity ABI data and decoding it returns the same value and matches the ABI specification byte for byte. Decoding arbitrary bytes either returns a value or a clean revert, never panics, never reads outside the input, and rejects lengths, offsets and values beyond the declared bounds.",
 ["inputs"],"all values of the supported types, nested to any depth, and all byte strings","byte-level totality",
 ["evm-precompiles/utils/src/data/mod.rs","evm-precompiles/utils/src/data/bytes.rs","evm-precompiles/utils/src/data/native.rs"],[("EvmData read/write","data/*")],["read/write results"])
p("C41","Function selectors equal the hash of the declared signature",
 "For every function signature string, the generated selector constant is the first four big-endian bytes of its Keccak-256 hash, the keccak helper expands to the full hash, and converting an unknown selector to an action is an error. Malformed attribute input is a compile error and never a silently wrong constant.",
 ["inputs","programs"],"all signature strings and enum declarations","tests hold two strings",
 ["evm-precompiles/utils/macro/src/lib.rs"],[("generate_function_selector, keccak256","lib.rs")],["generated constants"])
p("C44","Token amounts convert between 18 decimals and asset decimals safely",
 "Converting a wei amount to an asset's decimals rounds up by less than one unit, converting back never yields less than the original, exact multiples convert exactly, and both directions are monotone, so that fees charged in an asset always cover the EVM cost without overcharging by a whole unit.",
 ["inputs"],"all amounts in range and all decimals from 0 to 18","arithmetic over all inputs",
 ["pallet/common/src/utils.rs"],[("scale_wei_to_correct_decimals, scale_decimals_to_wei","utils.rs")],["returned values"])
p("C39","EVM token precompiles act only for their caller and follow their interfaces",
 "A call to the ERC20, ERC721, ERC1155 or marketplace precompile has exactly the effect its Solidity interface states, acting with the authority of the calling contract alone: it moves or changes only what the caller owns, was approved for or administers, however its arguments are encoded and whatever a token receiver does in its acceptance callback. It makes the same state change as the native call, and returns and logs what the interface declares. A call that fails, runs out of gas, carries value it cannot take or is made as a static call leaves no change, and no input makes it panic. A safe transfer to a contract goes through only if that contract returns the acceptance value.",
 ["inputs","histories"],"all callers, functions, encoded arguments, call modes, gas limits and receiver behaviours, over all histories",
 "re-entrant receivers, malformed encodings and mixed EVM and native histories are far more than example tests reach",
 ["evm-precompiles/erc20/src/lib.rs","evm-precompiles/erc721/src/lib.rs","evm-precompiles/erc1155/src/lib.rs","evm-precompiles/marketplace/src/lib.rs"],[("do_safe_transfer and acceptance checks","evm-precompiles/erc721/src/lib.rs, erc1155/src/lib.rs")],["precompile output, logs and storage"])
p("C46","XRPL-signed transactions act only for their signer, once and in time",
 "A transaction wrapped in an XRPL message is accepted only if the message is signed (secp256k1 or ed25519) by the key it names and its memo names this chain, the signer's next nonce, a block not yet passed, the tip and the hash of exactly the call submitted. It then acts as the account of that key and as nobody else: it has the effect and result of the same call signed natively, its payer (the signer, or for a futurepass call the signer's futurepass) pays exactly the fee and tip, only the signer's nonce advances and the message can never be used again. Anything else is refused by pool and block alike without a change, and no input makes either panic.",
 H,"all messages, signatures, nonces, deadlines and inner calls over all histories","an authentication path whose security is a property of all byte strings and orders of submission",
 ["pallet/xrpl/src/lib.rs","pallet/xrpl/src/types.rs","runtime/src/lib.rs"],[("check_self_contained, validate_params, apply_self_contained, transact","pallet/xrpl/src/lib.rs")],["pool and block validity, storage after the transaction"])
p("C47","Doughnut transactions do only what the issuer allowed and the holder signed",
 "A doughnut transaction is accepted only if the doughnut is signed by its issuer and within its validity window, neither it (in whatever form the same signed content is written) nor its holder has been revoked by the issuer, and the holder signed exactly this call, doughnut, nonce, tip and chain. The call then runs, as the issuer, only if the holder is whitelisted and the doughnut's topping permits that call with those arguments, at full precision, also when it is wrapped in a futurepass or fee preference call; otherwise it has no effect but the fee. The party the doughnut names pays exactly the fee and tip, the holder's nonce advances once and the transaction cannot be replayed. Only the issuer can revoke or restore, and only root can change the whitelist.",
 H,"all doughnuts, encodings, permissions, calls and orders of use, revocation and replay","delegated authority: a property of all combinations of permission, call and history",
 ["pallet/doughnut/src/lib.rs","runtime/src/impls.rs"],[("check_self_contained, validate_params, apply_self_contained, transact","pallet/doughnut/src/lib.rs"),("DoughnutCallValidator","runtime/src/impls.rs")],["pool and block validity, storage after the transaction"])
p("C48","The DEX precompile does what the DEX does, for its caller alone",
 "A call to the DEX precompile has exactly the effect of the corresponding DEX operation made by the caller: the same outcome, state, events and amounts returned. It acts with the authority of the calling contract alone, honours the stated limits, recipient and deadline at full precision, and logs Mint, Burn and Swap at the pair's address with the fields (indexed and not) and the order of amounts its Solidity interface declares. View functions give what the pallet gives and change nothing. A call that fails, runs out of gas, is malformed, carries a value a non-payable function cannot take, or is made by DELEGATECALL or (unless a view) STATICCALL changes nothing and logs nothing, and no input makes it panic. A payable function uses the value that was sent along.",
 ["inputs","histories"],"all callers, functions, amounts up to 2^256, paths, call modes, values and gas limits, over all states of the pools",
 "conversions between 256-bit Solidity values and the chain's numbers, pair order and call modes multiply into more combinations than examples reach",
 ["evm-precompiles/dex/src/lib.rs"],[("add_liquidity, remove_liquidity, swap_*","evm-precompiles/dex/src/lib.rs")],["precompile output, logs, events and storage"])
p("C49","Collections, withdrawals and futurepasses work from the EVM as natively",
 "The NFT and SFT precompiles create the collection that was asked for (owner, name, issuance limit, metadata, royalties) and answer with its address; the peg precompile withdraws exactly the caller's tokens of the assets and collections named, under the bridge's rules, and answers with the id of its proof (a payment that would be delayed is refused); the futurepass registrar makes and finds futurepasses. Each has the same effect as the native call, returns and logs what its interface declares, and refuses an argument that does not fit the chain's type (a royalty share above the whole counts as the whole). A call that fails, runs out of gas, is malformed, carries value, or is made by DELEGATECALL or (unless a view) STATICCALL changes nothing, and no input makes it panic.",
 ["inputs","histories"],"all callers, arguments (including lists of different lengths and numbers out of range), call modes and gas limits over all states of the chain",
 "argument decoding, nested lists and boundary numbers cannot be settled by examples",
 ["evm-precompiles/nft/src/lib.rs","evm-precompiles/sft/src/lib.rs","evm-precompiles/peg/src/lib.rs","evm-precompiles/futurepass-registrar/src/lib.rs"],[("initialize_collection, erc20_withdraw, erc721_withdraw, create_futurepass","evm-precompiles/*/src/lib.rs")],["precompile output, logs, events and storage"])
p("C50","A futurepass in the EVM obeys its owner and delegates only",
 "At a futurepass's address, only its owner (or the futurepass itself) registers a delegate, with that delegate's own valid signature, and only the owner transfers or renounces it, and only that futurepass; delegates may be removed by those the chain allows. proxyCall runs, as the futurepass and with the value stated, exactly the call (or static call, or contract creation) it is given, and only for a delegate whose type permits it; calls to futurepasses and the registrar are limited to the managing functions and to the owner. It returns the inner call's output, emits the inner logs and Executed or ContractCreated, and pays gas for all the work done. The views tell the truth. A failed or out-of-gas call, a static call of anything but a view, or value sent to a non-payable function changes nothing, and no input makes it panic.",
 ["inputs","histories"],"all callers, delegates, signatures, inner calls, values and call modes, over all histories of delegation and ownership",
 "an account-abstraction surface: what matters is every combination of caller, permission and nested call",
 ["evm-precompiles/futurepass/src/lib.rs","runtime/src/impls.rs"],[("proxy_call, do_proxy, register_delegate_with_signature, transfer_ownership","evm-precompiles/futurepass/src/lib.rs"),("EvmProxyCallFilter for ProxyType","runtime/src/impls.rs")],["precompile output, logs, gas, events and storage"])
p("C51","An EVM transaction costs the gas it used and moves exactly its value",
 "A transaction is included exactly if its nonce is next, its gas limit is from 21,000 to the block's limit, its maximum price is at least the base fee and its priority fee, and the sender holds value plus maximum fee; refused, it changes nothing. Included, it costs the sender the gas used times the base fee plus the priority fee its maximum leaves room for, within one drop, whether it succeeds or fails, and everything else is refunded. The base fee goes to the transaction fee pot and its counter, the priority fee to the validator who makes the block; no XRP is made or destroyed. Values move in drops, with a part of a drop rounded up, between exactly the accounts named, and not at all when the transaction or the call that carries them fails. The EVM sees an account's XRP balance in wei, and only governance sets the base fee.",
 ["inputs","histories"],"all prices, gas limits, balances, values and targets, over all histories of transactions, base fees and block authors",
 "two units with different precision meet here on every EVM transaction; errors are one drop or a saturated number at the boundary",
 ["runtime/src/impls.rs","pallet/tx-fee-pot/src/lib.rs","pallet/fee-control/src/lib.rs","pallet/assets-ext/src"],[("EvmCurrencyScaler, FutureverseEVMCurrencyAdapter, EthereumFindAuthor, HandleTxValidation","runtime/src/impls.rs"),("on_nonzero_unbalanced","pallet/tx-fee-pot/src/lib.rs")],["XRP balances, issuance, the fee pot's counter"])
p("C52","Calls the runtime disables stay disabled on every route",
 "The calls the runtime switches off for users (making an asset with Assets.create, challenging a claim of the Ethereum or the XRPL bridge, bonding with rewards going back to the stake or redirecting them there, paying out stakers, adding a delegate with Proxy.add_proxy) have no effect by any route a user has: signed natively, as an XRPL transaction or by a doughnut, alone or within batches, proxies, futurepasses and fee preferences nested to any depth and in any order. Calls next to them (bonding with other payees, changing between them) are unaffected on the same routes.",
 ["inputs","histories"],"all signers and schemes, nestings of wrappers, arguments of the calls, and orders of them",
 "a filter is only as strong as the weakest of the routes around it: examples test the call itself, not the nestings",
 ["runtime/src/lib.rs","pallet/fee-proxy/src/lib.rs","pallet/futurepass/src/lib.rs","pallet/xrpl/src/lib.rs","pallet/doughnut/src/lib.rs"],[("CallFilter","runtime/src/lib.rs"),("call_with_fee_preferences","pallet/fee-proxy/src/lib.rs"),("proxy_extrinsic","pallet/futurepass/src/lib.rs"),("transact","pallet/xrpl/src/lib.rs")],["what the disabled calls would have stored"])
p("C53","Messages from Ethereum reach the pallet they name, from its contract only",
 "A verified message from Ethereum is processed by the pallet whose address it names and by no other: storage of other pallets does not change. The pegs accept messages of their own contracts only (ROOT from the root peg's contract, other known tokens from the ERC-20 peg's, NFTs from the NFT peg's, whatever contracts governance has set at the time); anything else changes nothing. A message that names no pallet is reported as such. A deposit accepted credits exactly its beneficiary with exactly its tokens. The echo pallet answers each ping of Ethereum with one pong to the destination, in the same session and from the same source, refuses other kinds of messages, and gives each of its own pings a new session until none is left; the notaries are asked to sign exactly the message announced. A message is processed once.",
 ["inputs","histories"],"all sources, destinations, message contents (well formed or not) and changes of the contracts, by the router and by way of a claim",
 "the isolation of the bridge's receivers depends on every combination of source, destination and content",
 ["runtime/src/impls.rs","pallet/common/src/lib.rs","pallet/echo/src/lib.rs","pallet/erc20-peg/src/lib.rs","pallet/nft-peg/src/lib.rs"],[("EthereumEventRouter","runtime/src/impls.rs"),("process_event","pallet/common/src/lib.rs"),("on_event, ping","pallet/echo/src/lib.rs"),("verify_source","pallet/erc20-peg/src/lib.rs")],["storage by pallet, events, digests to sign"])
p("C54","Every token has one address in the EVM, and only tokens have one",
 "Every fungible asset, NFT collection and SFT collection, however it comes into being (by its owner, from a bridge, as a liquidity token or as vouchers of a crowdsale), has code at exactly one address in the EVM, made of its kind's prefix, its id and zeros; a creation that fails or is undone leaves none. No two tokens share an id of their kind, up to the last id there is. The conversions between ids and addresses are inverse to each other for every id and kind, and no other address stands for a token. A precompile answers at an address exactly if the token exists, and with that token's own facts.",
 ["inputs","histories"],"all orders of creations of every kind, ids over the whole range, and all addresses near those of tokens",
 "contracts hold tokens by their address: it has to be right for every id and every way a token comes into being",
 ["runtime/src/impls.rs","runtime/src/precompiles.rs","pallet/assets-ext/src/lib.rs","pallet/nft/src/impls.rs","pallet/sft/src/impls.rs","pallet/common/src/utils.rs"],[("ErcIdConversion for Runtime, OnNewAssetSubscription","runtime/src/impls.rs"),("is_precompile","evm-precompiles/erc20/src/lib.rs"),("next_asset_uuid","pallet/common/src/utils.rs"),("create","pallet/assets-ext/src/lib.rs"),("do_create_collection","pallet/nft/src/impls.rs")],["EVM account codes, precompile answers"])
if __name__=="__main__":
    for x in P: print(json.dumps(x))
