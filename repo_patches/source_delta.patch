From b5005ebb0b4a07a9beb1ccf1cbaafd6e680eea99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:01 +0000
Subject: [PATCH 01/59] fix: NFT transfer credits each named token once

Naming a serial number more than once in a transfer added it to the new
owner's list as often, inflating their token balance.
---
 pallet/nft/src/impls.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pallet/nft/src/impls.rs b/pallet/nft/src/impls.rs
index fbdbd69..2a2c3ab 100644
--- a/pallet/nft/src/impls.rs
+++ b/pallet/nft/src/impls.rs
@@ -34,7 +34,7 @@ use seed_primitives::{CrossChainCompatibility, MAX_COLLECTION_ENTITLEMENTS};
 use sp_runtime::{
 	traits::Zero, ArithmeticError, BoundedVec, DispatchError, DispatchResult, SaturatedConversion,
 };
-use sp_std::vec;
+use sp_std::{collections::btree_set::BTreeSet, vec};
 
 impl<T: Config> Pallet<T> {
 	/// Returns the CollectionUuid unique across parachains
@@ -93,6 +93,11 @@ impl<T: Config> Pallet<T> {
 			Error::<T>::TransferUtilityBlocked
 		);
 
+		// Name each token once, otherwise it would be credited to the new owner more than once
+		let mut serial_numbers = serial_numbers;
+		let mut unique_serials = BTreeSet::new();
+		serial_numbers.retain(|serial_number| unique_serials.insert(*serial_number));
+
 		CollectionInfo::<T>::try_mutate(collection_id, |maybe_collection_info| -> DispatchResult {
 			let collection_info =
 				maybe_collection_info.as_mut().ok_or(Error::<T>::NoCollectionFound)?;
-- 
2.43.0


From 37dfa88c19fc0cd5975048ae435adae551e8684f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:52 +0000
Subject: [PATCH 02/59] fix: accepting an offer closes the listing properly

All tokens of the closed listing are unlocked, not only the one sold, and an
offer can't be accepted while the token is on auction, which would leave the
highest bid held and the other tokens locked.
---
 pallet/marketplace/src/impls.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pallet/marketplace/src/impls.rs b/pallet/marketplace/src/impls.rs
index 84c49b5..d06cf34 100644
--- a/pallet/marketplace/src/impls.rs
+++ b/pallet/marketplace/src/impls.rs
@@ -373,13 +373,19 @@ impl<T: Config> Pallet<T> {
 		if let Some(TokenLockReason::Listed(listing_id)) = T::NFTExt::get_token_lock(offer.token_id)
 		{
 			if let Some(listing) = <Listings<T>>::get(listing_id) {
-				if let Listing::<T>::FixedPrice(sale) = listing.clone() {
-					Self::deposit_event(Event::<T>::FixedPriceSaleClose {
-						tokens: sale.tokens,
-						listing_id,
-						marketplace_id: sale.marketplace_id,
-						reason: FixedPriceClosureReason::OfferAccepted,
-					});
+				match listing.clone() {
+					Listing::<T>::FixedPrice(sale) => {
+						// The listing closes, so all of its tokens must be unlocked
+						sale.tokens.unlock_tokens(&sale.seller)?;
+						Self::deposit_event(Event::<T>::FixedPriceSaleClose {
+							tokens: sale.tokens,
+							listing_id,
+							marketplace_id: sale.marketplace_id,
+							reason: FixedPriceClosureReason::OfferAccepted,
+						});
+					},
+					// An offer made before the auction started can't be accepted until it closes
+					Listing::<T>::Auction(_) => return Err(Error::<T>::TokenOnAuction.into()),
 				}
 
 				Self::remove_listing(listing, listing_id);
-- 
2.43.0


From 639518ed5e77205f1031d5ae3157b99b1d6cad2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:54 +0000
Subject: [PATCH 03/59] fix: marketplace royalties never exceed the sale price

Each royalty is rounded to the nearest unit, so a schedule close to 100% could
add up to more than the price and such a sale could not complete.
---
 pallet/marketplace/src/impls.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallet/marketplace/src/impls.rs b/pallet/marketplace/src/impls.rs
index d06cf34..49563af 100644
--- a/pallet/marketplace/src/impls.rs
+++ b/pallet/marketplace/src/impls.rs
@@ -575,7 +575,8 @@ impl<T: Config> Pallet<T> {
 		if !royalties_schedule.calculate_total_entitlement().is_zero() {
 			let entitlements = royalties_schedule.entitlements.clone();
 			for (who, entitlement) in entitlements.into_iter() {
-				let royalty: Balance = entitlement * amount;
+				// Royalties are rounded to nearest, they must not add up to more than `amount`
+				let royalty: Balance = (entitlement * amount).min(for_seller);
 				for_seller -= royalty;
 				payouts.push((who, royalty));
 			}
-- 
2.43.0


From e371ec7643bca0ba5ba8509caef0094d892fed3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:54 +0000
Subject: [PATCH 04/59] fix: unlock the tokens of an auction whose settlement
 fails

---
 pallet/marketplace/src/impls.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pallet/marketplace/src/impls.rs b/pallet/marketplace/src/impls.rs
index 49563af..e0e5104 100644
--- a/pallet/marketplace/src/impls.rs
+++ b/pallet/marketplace/src/impls.rs
@@ -521,6 +521,9 @@ impl<T: Config> Pallet<T> {
 				log!(error, "🃏 releasing hold failed");
 			}
 
+			// the listing is closed, so its tokens must be unlocked
+			let _ = listing.tokens.unlock_tokens(&listing.seller);
+
 			// listing metadata is removed by now.
 			Self::deposit_event(Event::<T>::AuctionClose {
 				tokens: listing.tokens,
-- 
2.43.0


From c85f0b955845fbc7d59d585d9ebf9822f6c0563a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:46 +0000
Subject: [PATCH 05/59] fix: refuse auction bids of zero

No hold backs a bid of zero, and releasing it when it is outbid can fail, which
made every later bid on the auction fail.
---
 pallet/marketplace/src/impls.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pallet/marketplace/src/impls.rs b/pallet/marketplace/src/impls.rs
index e0e5104..54dad6c 100644
--- a/pallet/marketplace/src/impls.rs
+++ b/pallet/marketplace/src/impls.rs
@@ -222,6 +222,8 @@ impl<T: Config> Pallet<T> {
 		} else {
 			// first bid
 			ensure!(amount >= listing.reserve_price, Error::<T>::BidTooLow);
+			// there is no hold to release for a bid of zero, so it could not be outbid
+			ensure!(!amount.is_zero(), Error::<T>::BidTooLow);
 		}
 
 		// try lock funds
-- 
2.43.0


From 91e381d97437377978bd2eab7c30970cd230f61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:42 +0000
Subject: [PATCH 06/59] fix: a zero imbalance takes the asset of the one it is
 combined with

---
 pallet/assets-ext/src/imbalances.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pallet/assets-ext/src/imbalances.rs b/pallet/assets-ext/src/imbalances.rs
index 66fc93a..25dd741 100644
--- a/pallet/assets-ext/src/imbalances.rs
+++ b/pallet/assets-ext/src/imbalances.rs
@@ -124,18 +124,20 @@ impl<T: Config> Imbalance<Balance> for PositiveImbalance<T> {
 		(Self::new(first, asset_id), Self::new(second, asset_id))
 	}
 	fn merge(mut self, other: Self) -> Self {
-		self.amount = self.amount.saturating_add(other.amount);
-		mem::forget(other);
-
+		self.subsume(other);
 		self
 	}
 	fn subsume(&mut self, other: Self) {
+		// a zero imbalance has no asset of its own, it takes the one it is merged with
+		if self.asset_id.is_zero() {
+			self.asset_id = other.asset_id;
+		}
 		self.amount = self.amount.saturating_add(other.amount);
 		mem::forget(other);
 	}
 	fn offset(self, other: Self::Opposite) -> SameOrOther<Self, Self::Opposite> {
 		let (a, b) = (self.amount, other.amount);
-		let asset_id = self.asset_id;
+		let asset_id = if self.asset_id.is_zero() { other.asset_id } else { self.asset_id };
 		mem::forget((self, other));
 
 		if a >= b {
@@ -177,18 +179,20 @@ impl<T: Config> Imbalance<Balance> for NegativeImbalance<T> {
 		(Self::new(first, asset_id), Self::new(second, asset_id))
 	}
 	fn merge(mut self, other: Self) -> Self {
-		self.amount = self.amount.saturating_add(other.amount);
-		mem::forget(other);
-
+		self.subsume(other);
 		self
 	}
 	fn subsume(&mut self, other: Self) {
+		// a zero imbalance has no asset of its own, it takes the one it is merged with
+		if self.asset_id.is_zero() {
+			self.asset_id = other.asset_id;
+		}
 		self.amount = self.amount.saturating_add(other.amount);
 		mem::forget(other);
 	}
 	fn offset(self, other: Self::Opposite) -> SameOrOther<Self, Self::Opposite> {
 		let (a, b) = (self.amount, other.amount);
-		let asset_id = self.asset_id;
+		let asset_id = if self.asset_id.is_zero() { other.asset_id } else { self.asset_id };
 		mem::forget((self, other));
 
 		if a >= b {
-- 
2.43.0


From e511bcc9137db5b505e65e65f53b54d5d03b9e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:42 +0000
Subject: [PATCH 07/59] fix: next_asset_uuid must not wrap at the end of the id
 space

---
 pallet/common/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallet/common/src/utils.rs b/pallet/common/src/utils.rs
index 19ad260..2a3296d 100644
--- a/pallet/common/src/utils.rs
+++ b/pallet/common/src/utils.rs
@@ -35,7 +35,7 @@ const MAX_U10: u32 = (1 << 10) - 1;
 pub fn next_asset_uuid(next_id: u32, parachain_id: u32) -> Option<u32> {
 	// Check ids fit within limited bit sizes
 	// next_id max 22 bits, parachain_id max 10 bits
-	if next_id + 1_u32 > MAX_U22 || parachain_id > MAX_U10 {
+	if next_id >= MAX_U22 || parachain_id > MAX_U10 {
 		return None;
 	}
 
-- 
2.43.0


From 5cff550b4afac286f7974ec0df201f18d50eec94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:07 +0000
Subject: [PATCH 08/59] fix: split_transfer and spend_hold must not wrap the
 sum of the amounts

---
 pallet/assets-ext/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pallet/assets-ext/src/lib.rs b/pallet/assets-ext/src/lib.rs
index 3fe722d..d618dd7 100644
--- a/pallet/assets-ext/src/lib.rs
+++ b/pallet/assets-ext/src/lib.rs
@@ -518,7 +518,10 @@ impl<T: Config> TransferExt for Pallet<T> {
 		asset_id: AssetId,
 		transfers: &[(Self::AccountId, Balance)],
 	) -> DispatchResult {
-		let total = transfers.iter().map(|x| x.1).sum::<Balance>();
+		let total = transfers
+			.iter()
+			.try_fold(Balance::zero(), |sum, x| sum.checked_add(x.1))
+			.ok_or(Error::<T>::BalanceLow)?;
 		// This check will fail before making any transfers to restrict partial transfers
 		ensure!(
 			Self::reducible_balance(asset_id, who, Preservation::Expendable, Fortitude::Polite)
@@ -645,7 +648,10 @@ impl<T: Config> Hold for Pallet<T> {
 		asset_id: AssetId,
 		spends: &[(Self::AccountId, Balance)],
 	) -> DispatchResult {
-		let total_spend = spends.iter().map(|x| x.1).sum::<Balance>();
+		let total_spend = spends
+			.iter()
+			.try_fold(Balance::zero(), |sum, x| sum.checked_add(x.1))
+			.ok_or(Error::<T>::BalanceLow)?;
 		let mut holds = Holds::<T>::get(asset_id, who);
 		if let Ok(index) = holds.binary_search_by_key(&pallet_id.0, |(p, _)| *p) {
 			let (_, existing_hold) = holds[index];
-- 
2.43.0


From 3c911ac539b2aaf0000914ee46e49824b59617ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:32 +0000
Subject: [PATCH 09/59] fix: reRequestXls20Mint must refuse too many serial
 numbers instead of panicking

---
 evm-precompiles/erc721/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/evm-precompiles/erc721/src/lib.rs b/evm-precompiles/erc721/src/lib.rs
index a3c7e9f..0c97f31 100644
--- a/evm-precompiles/erc721/src/lib.rs
+++ b/evm-precompiles/erc721/src/lib.rs
@@ -1137,7 +1137,8 @@ where
 		let serial_numbers: BoundedVec<
 			SerialNumber,
 			<Runtime as pallet_xls20::Config>::MaxTokensPerXls20Mint,
-		> = BoundedVec::try_from(serial_numbers_unbounded).expect("Should not fail");
+		> = BoundedVec::try_from(serial_numbers_unbounded)
+			.map_err(|_| revert("XLS20: Too many serial numbers"))?;
 
 		// Dispatch call (if enough gas).
 		RuntimeHelper::<Runtime>::try_dispatch(
-- 
2.43.0


From 524cbe8c39e3887f53f3d5c97243c86a14696d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:32 +0000
Subject: [PATCH 10/59] fix: a token receiver that returns fewer than four
 bytes rejects the token instead of panicking

---
 evm-precompiles/erc1155/src/lib.rs | 4 ++--
 evm-precompiles/erc721/src/lib.rs  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/evm-precompiles/erc1155/src/lib.rs b/evm-precompiles/erc1155/src/lib.rs
index f4ccc06..276187c 100644
--- a/evm-precompiles/erc1155/src/lib.rs
+++ b/evm-precompiles/erc1155/src/lib.rs
@@ -444,7 +444,7 @@ where
 			// Check response from call
 			match reason {
 				ExitReason::Succeed(_) => {
-					if output[..4] != ON_ERC1155_RECEIVED_FUNCTION_SELECTOR.to_vec() {
+					if output.get(..4) != Some(&ON_ERC1155_RECEIVED_FUNCTION_SELECTOR[..]) {
 						return Err(revert("ERC1155: ERC1155Receiver rejected tokens"));
 					}
 				},
@@ -548,7 +548,7 @@ where
 			// Check response from call
 			match reason {
 				ExitReason::Succeed(_) => {
-					if output[..4] != ON_ERC1155_BATCH_RECEIVED_FUNCTION_SELECTOR.to_vec() {
+					if output.get(..4) != Some(&ON_ERC1155_BATCH_RECEIVED_FUNCTION_SELECTOR[..]) {
 						return Err(revert("ERC1155: ERC1155Receiver rejected tokens"));
 					}
 				},
diff --git a/evm-precompiles/erc721/src/lib.rs b/evm-precompiles/erc721/src/lib.rs
index 0c97f31..7d0042a 100644
--- a/evm-precompiles/erc721/src/lib.rs
+++ b/evm-precompiles/erc721/src/lib.rs
@@ -488,7 +488,7 @@ where
 			// Check response from call
 			match reason {
 				ExitReason::Succeed(_) => {
-					if output[..4] != ON_ERC721_RECEIVED_FUNCTION_SELECTOR.to_vec() {
+					if output.get(..4) != Some(&ON_ERC721_RECEIVED_FUNCTION_SELECTOR[..]) {
 						return Err(revert("ERC721: transfer to non ERC721Receiver implementer"));
 					}
 				},
-- 
2.43.0


From 30e8ebb13898fca0359a6a8a645aaf680063284a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:32 +0000
Subject: [PATCH 11/59] fix: safeTransferFrom must hold an approval after the
 receiver's callback as well

---
 evm-precompiles/erc721/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/evm-precompiles/erc721/src/lib.rs b/evm-precompiles/erc721/src/lib.rs
index 7d0042a..edabfe1 100644
--- a/evm-precompiles/erc721/src/lib.rs
+++ b/evm-precompiles/erc721/src/lib.rs
@@ -494,6 +494,15 @@ where
 				},
 				_ => return Err(revert("ERC721: transfer to non ERC721Receiver implementer")),
 			};
+
+			// The receiver may have changed the ownership or approvals of the token
+			handle.record_cost(RuntimeHelper::<Runtime>::db_read_gas_cost().saturating_mul(3))?;
+			if !pallet_token_approvals::Pallet::<Runtime>::is_approved_or_owner(
+				token_id,
+				Runtime::AccountId::from(handle.context().caller),
+			) {
+				return Err(revert("ERC721: Caller not approved"));
+			}
 		}
 
 		// Dispatch call (if enough gas).
-- 
2.43.0


From c00ea3818a9a6a75baea6bb11eb246c3266601b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:32 +0000
Subject: [PATCH 12/59] fix: state changing token functions must be refused in
 a static call

---
 evm-precompiles/erc1155/src/lib.rs | 5 +++++
 evm-precompiles/erc721/src/lib.rs  | 1 +
 2 files changed, 6 insertions(+)

diff --git a/evm-precompiles/erc1155/src/lib.rs b/evm-precompiles/erc1155/src/lib.rs
index 276187c..0760f55 100644
--- a/evm-precompiles/erc1155/src/lib.rs
+++ b/evm-precompiles/erc1155/src/lib.rs
@@ -162,6 +162,11 @@ where
 						| Action::SafeBatchTransferFrom
 						| Action::Burn
 						| Action::BurnBatch
+						| Action::RenounceOwnership
+						| Action::TransferOwnership
+						| Action::CreateToken
+						| Action::SetMaxSupply
+						| Action::SetBaseURI
 						| Action::Mint
 						| Action::TogglePublicMint
 						| Action::SetMintFee
diff --git a/evm-precompiles/erc721/src/lib.rs b/evm-precompiles/erc721/src/lib.rs
index edabfe1..d0095c5 100644
--- a/evm-precompiles/erc721/src/lib.rs
+++ b/evm-precompiles/erc721/src/lib.rs
@@ -183,6 +183,7 @@ where
 						| Action::ReRequestXls20Mint
 						| Action::TogglePublicMint
 						| Action::SetMintFee
+						| Action::Burn
 						| Action::Mint => FunctionModifier::NonPayable,
 						_ => FunctionModifier::View,
 					}) {
-- 
2.43.0


From 82482359e96fd7ee4f89dbd1c0bac365f45a6add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:32 +0000
Subject: [PATCH 13/59] fix: token receivers are called with the standard's
 selector and arguments

---
 evm-precompiles/erc1155/src/lib.rs | 2 +-
 evm-precompiles/erc721/src/lib.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/evm-precompiles/erc1155/src/lib.rs b/evm-precompiles/erc1155/src/lib.rs
index 0760f55..f0b9453 100644
--- a/evm-precompiles/erc1155/src/lib.rs
+++ b/evm-precompiles/erc1155/src/lib.rs
@@ -541,7 +541,7 @@ where
 			// Setup input for onErc1155BatchReceived call
 			let sub_context =
 				Context { address: to, caller: operator, apparent_value: Default::default() };
-			let input = EvmDataWriter::new_with_selector(Action::OnErc1155Received)
+			let input = EvmDataWriter::new_with_selector(Action::OnErc1155BatchReceived)
 				.write::<Address>(operator.into())
 				.write::<Address>(from)
 				.write::<Vec<U256>>(ids)
diff --git a/evm-precompiles/erc721/src/lib.rs b/evm-precompiles/erc721/src/lib.rs
index d0095c5..4f54660 100644
--- a/evm-precompiles/erc721/src/lib.rs
+++ b/evm-precompiles/erc721/src/lib.rs
@@ -479,8 +479,8 @@ where
 				apparent_value: Default::default(),
 			};
 			let input = EvmDataWriter::new_with_selector(Action::OnErc721Received)
+				.write::<Address>(handle.context().caller.into())
 				.write::<Address>(from.into())
-				.write::<Address>(to.into())
 				.write::<U256>(serial_number.into())
 				.write::<Bytes>(data)
 				.build();
-- 
2.43.0


From bfb05739f7d7ced7cd746bd2d008e8aac6eca52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 14/59] fix: crowdsale: refuse collections which have burned
 tokens

The serial numbers of burned tokens are used up, so a collection with max
issuance N which minted and burned k tokens can only mint N - k more. A sale
over it issued vouchers for N tokens, the last k of which could never be
redeemed.
---
 pallet/common/src/lib.rs    | 4 ++++
 pallet/crowdsale/src/lib.rs | 6 ++++++
 pallet/nft/src/impls.rs     | 8 ++++++++
 3 files changed, 18 insertions(+)

diff --git a/pallet/common/src/lib.rs b/pallet/common/src/lib.rs
index 200dcfd..f6e5f3b 100644
--- a/pallet/common/src/lib.rs
+++ b/pallet/common/src/lib.rs
@@ -566,6 +566,10 @@ pub trait NFTExt {
 		collection_id: CollectionUuid,
 	) -> Result<(TokenCount, Option<TokenCount>), DispatchError>;
 
+	/// Returns the serial number the next minted token will have, also counts burned tokens
+	fn get_next_serial_number(collection_id: CollectionUuid)
+		-> Result<SerialNumber, DispatchError>;
+
 	/// Returns the collection public mint information
 	fn get_public_mint_info(
 		collection_id: CollectionUuid,
diff --git a/pallet/crowdsale/src/lib.rs b/pallet/crowdsale/src/lib.rs
index 38e44c1..47981f1 100644
--- a/pallet/crowdsale/src/lib.rs
+++ b/pallet/crowdsale/src/lib.rs
@@ -389,6 +389,12 @@ pub mod pallet {
 				T::NFTExt::get_collection_issuance(collection_id)?;
 			let max_issuance = max_issuance.ok_or(Error::<T>::MaxIssuanceNotSet)?;
 			ensure!(collection_issuance.is_zero(), Error::<T>::CollectionIssuanceNotZero);
+			// Burned tokens count too: their serial numbers are used up, so they reduce the number of
+			// NFTs which can still be minted for the vouchers
+			ensure!(
+				T::NFTExt::get_next_serial_number(collection_id)?.is_zero(),
+				Error::<T>::CollectionIssuanceNotZero
+			);
 
 			// Verify collection public mint is disabled
 			if let Ok(mint_info) = T::NFTExt::get_public_mint_info(collection_id) {
diff --git a/pallet/nft/src/impls.rs b/pallet/nft/src/impls.rs
index 2a2c3ab..cdaf945 100644
--- a/pallet/nft/src/impls.rs
+++ b/pallet/nft/src/impls.rs
@@ -614,6 +614,14 @@ impl<T: Config> NFTExt for Pallet<T> {
 		Ok((collection_info.collection_issuance, collection_info.max_issuance))
 	}
 
+	fn get_next_serial_number(
+		collection_id: CollectionUuid,
+	) -> Result<SerialNumber, DispatchError> {
+		let collection_info =
+			<CollectionInfo<T>>::get(collection_id).ok_or(Error::<T>::NoCollectionFound)?;
+		Ok(collection_info.next_serial_number)
+	}
+
 	fn get_public_mint_info(
 		collection_id: CollectionUuid,
 	) -> Result<PublicMintInformation, DispatchError> {
-- 
2.43.0


From 1e7e81e51df766f5b42d4f61f9cb5a37ad409554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:41 +0000
Subject: [PATCH 15/59] fix: crowdsale: refuse sales with a duration of zero
 blocks

Such a sale was scheduled to close in the block it was enabled in, after
on_initialize of that block had run. It stayed enabled forever and its funds
stayed in the vault.
---
 pallet/crowdsale/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pallet/crowdsale/src/lib.rs b/pallet/crowdsale/src/lib.rs
index 47981f1..cd44860 100644
--- a/pallet/crowdsale/src/lib.rs
+++ b/pallet/crowdsale/src/lib.rs
@@ -378,6 +378,9 @@ pub mod pallet {
 
 			// ensure soft_cap_price is not zero - prevent future div by zero
 			ensure!(!soft_cap_price.is_zero(), Error::<T>::InvalidSoftCapPrice);
+			// Disallow sales that end in the block they are enabled in, on_initialize of that block has
+			// already run so the sale would never be closed
+			ensure!(!sale_duration.is_zero(), Error::<T>::InvalidBlockRange);
 			// Disallow sale durations that are too long
 			ensure!(sale_duration <= T::MaxSaleDuration::get(), Error::<T>::SaleDurationTooLong);
 
-- 
2.43.0


From 93d202389fa4f447b30a53f728123b98c4561d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 16/59] fix: crowdsale: close sales that raised nothing

Closing a sale transferred its funds to the admin even when they were zero. For
an asset the admin does not hold that transfer fails, so the sale stayed
enabled forever; funds paid in afterwards could never leave the vault.
---
 pallet/crowdsale/src/impls.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pallet/crowdsale/src/impls.rs b/pallet/crowdsale/src/impls.rs
index 8d62264..ba542cb 100644
--- a/pallet/crowdsale/src/impls.rs
+++ b/pallet/crowdsale/src/impls.rs
@@ -152,13 +152,16 @@ impl<T: Config> Pallet<T> {
 				);
 
 				// transfer all payment_asset from the sale vault to the admin
-				T::MultiCurrency::transfer(
-					sale_info.payment_asset_id,
-					&sale_info.vault,
-					&sale_info.admin,
-					sale_info.funds_raised,
-					Preservation::Expendable,
-				)?;
+				// a transfer of zero fails if the admin does not hold the asset yet
+				if !sale_info.funds_raised.is_zero() {
+					T::MultiCurrency::transfer(
+						sale_info.payment_asset_id,
+						&sale_info.vault,
+						&sale_info.admin,
+						sale_info.funds_raised,
+						Preservation::Expendable,
+					)?;
+				}
 
 				let collection_max_issuance =
 					T::NFTExt::get_collection_issuance(sale_info.reward_collection_id)?
-- 
2.43.0


From 2735812fcb8bda36156d334478b83e612a0347e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:44 +0000
Subject: [PATCH 17/59] fix: crowdsale: do not saturate the vouchers paid out
 for large sums

The vouchers to refund to the admin were computed in u128 from the funds raised
times 10^6. Above 3.4e32 units this saturated, so vouchers owed to the
participants were handed to the admin and the last participants got none.
---
 pallet/crowdsale/src/impls.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pallet/crowdsale/src/impls.rs b/pallet/crowdsale/src/impls.rs
index ba542cb..db4d5b6 100644
--- a/pallet/crowdsale/src/impls.rs
+++ b/pallet/crowdsale/src/impls.rs
@@ -179,11 +179,12 @@ impl<T: Config> Pallet<T> {
 					// price
 					let voucher_total_issuance =
 						collection_max_issuance.saturating_mul(10u128.pow(VOUCHER_DECIMALS as u32));
-					let voucher_price = sale_info.soft_cap_price;
-					let total_vouchers = sale_info
-						.funds_raised
-						.saturating_mul(10u128.pow(VOUCHER_DECIMALS as u32))
-						.saturating_div(voucher_price);
+					let total_vouchers = Self::calculate_voucher_rewards(
+						sale_info.soft_cap_price,
+						sale_info.funds_raised,
+						sale_info.funds_raised.into(),
+						collection_max_issuance,
+					)?;
 					let refunded_vouchers = voucher_total_issuance.saturating_sub(total_vouchers);
 
 					T::MultiCurrency::transfer(
-- 
2.43.0


From ac5c4f5b195749f908872499a68106936f0006b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:26 +0000
Subject: [PATCH 18/59] fix: erc20-peg never pays payments delayed by zero
 blocks

---
 pallet/erc20-peg/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pallet/erc20-peg/src/lib.rs b/pallet/erc20-peg/src/lib.rs
index 81275bd..c639801 100644
--- a/pallet/erc20-peg/src/lib.rs
+++ b/pallet/erc20-peg/src/lib.rs
@@ -676,7 +676,10 @@ impl<T: Config> Pallet<T> {
 			Self::deposit_event(Event::<T>::NoAvailableDelayedPaymentIds);
 			return;
 		}
-		let payment_block = <frame_system::Pallet<T>>::block_number().saturating_add(delay);
+		// The schedule of the current block has already been processed, the earliest block a payment
+		// can be scheduled for is the next one
+		let payment_block =
+			<frame_system::Pallet<T>>::block_number().saturating_add(delay.max(One::one()));
 		DelayedPayments::<T>::insert(payment_id, &pending_payment);
 		NextDelayedPaymentId::<T>::put(payment_id + 1);
 		DelayedPaymentSchedule::<T>::mutate(payment_block, |v| {
-- 
2.43.0


From 1c5a751b55624ee018f9a83188c357581f565864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:51 +0000
Subject: [PATCH 19/59] fix: nft-peg panics on messages shorter than 32 bytes

---
 pallet/nft-peg/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pallet/nft-peg/src/lib.rs b/pallet/nft-peg/src/lib.rs
index 211878c..2cf994b 100644
--- a/pallet/nft-peg/src/lib.rs
+++ b/pallet/nft-peg/src/lib.rs
@@ -497,9 +497,9 @@ where
 		let weight = Weight::zero();
 
 		// Decode prefix from first 32 bytes of data
-		let prefix_decoded = match ethabi::decode(&[ParamType::Uint(32)], &data[..32]) {
-			Ok(abi) => abi,
-			Err(_) => return Err((weight, Error::<T>::InvalidAbiPrefix.into())),
+		let prefix_decoded = match data.get(..32).map(|p| ethabi::decode(&[ParamType::Uint(32)], p)) {
+			Some(Ok(abi)) => abi,
+			_ => return Err((weight, Error::<T>::InvalidAbiPrefix.into())),
 		};
 
 		// match prefix and route to specific decoding path
-- 
2.43.0


From 5bb8bc6fdcb99dc47299a561be7f1d60d1684e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:51 +0000
Subject: [PATCH 20/59] fix: nft-peg mints the wrong token for token ids above
 u32::MAX

---
 pallet/nft-peg/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pallet/nft-peg/src/lib.rs b/pallet/nft-peg/src/lib.rs
index 2cf994b..16d46ac 100644
--- a/pallet/nft-peg/src/lib.rs
+++ b/pallet/nft-peg/src/lib.rs
@@ -240,17 +240,18 @@ where
 					return Err((weight, Error::<T>::ExceedsMaxTokens.into()));
 				};
 
+				// Token ids which are no valid serial numbers can not be represented on this chain
 				let vec: Vec<SerialNumber> = token
 					.iter()
 					.filter_map(|j| {
 						if let Token::Uint(token_id) = j {
-							let token_id: SerialNumber = (*token_id).saturated_into();
-							Some(token_id)
+							Some(SerialNumber::try_from(*token_id))
 						} else {
 							None
 						}
 					})
-					.collect();
+					.collect::<Result<_, _>>()
+					.map_err(|_| (weight, Error::<T>::InvalidAbiEncoding.into()))?;
 
 				let vec = BoundedVec::try_from(vec)
 					.map_err(|_| (weight, Error::<T>::ExceedsMaxTokens.into()))?;
-- 
2.43.0


From 2d68e2822cafa127de472a19b46f9fca76bfb483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:30 +0000
Subject: [PATCH 21/59] fix: nft-peg drops the collections of a deposit that
 follow a blocked one

---
 pallet/nft-peg/src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pallet/nft-peg/src/lib.rs b/pallet/nft-peg/src/lib.rs
index 16d46ac..4a305b9 100644
--- a/pallet/nft-peg/src/lib.rs
+++ b/pallet/nft-peg/src/lib.rs
@@ -290,6 +290,7 @@ where
 	// bridge
 	fn do_deposit(token_info: GroupedTokenInfo<T>, destination: H160) -> WeightedDispatchResult {
 		let mut weight = Weight::zero();
+		let mut blocked_error: Option<DispatchError> = None;
 
 		let destination: T::AccountId = destination.into();
 		let name = BoundedVec::truncate_from(b"bridged-collection".to_vec());
@@ -372,12 +373,14 @@ where
 						blocked_mint_id,
 						collection_id,
 						serial_numbers,
-						destination_address: destination,
+						destination_address: destination.clone(),
 					});
 
 					weight = weight.saturating_add(T::DbWeight::get().reads_writes(1, 2));
 
-					return Err((weight, err));
+					// The remaining collections of the deposit are not affected by this failure
+					blocked_error.get_or_insert(err);
+					continue;
 				},
 			}
 
@@ -390,6 +393,10 @@ where
 			weight = weight.saturating_add(T::DbWeight::get().writes(2));
 		}
 
+		if let Some(err) = blocked_error {
+			return Err((weight, err));
+		}
+
 		Self::deposit_event(Event::<T>::Erc721Deposit { destination });
 		Ok(weight)
 	}
-- 
2.43.0


From 51f7f8d2bfbe18784a908bf5b657a64f72f4a09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:44 +0000
Subject: [PATCH 22/59] fix: xls20 mint fee truncated to 32 bits

---
 pallet/xls20/src/lib.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pallet/xls20/src/lib.rs b/pallet/xls20/src/lib.rs
index a672457..e75fd95 100644
--- a/pallet/xls20/src/lib.rs
+++ b/pallet/xls20/src/lib.rs
@@ -36,7 +36,7 @@ use seed_primitives::{
 };
 use sp_runtime::{
 	traits::{AccountIdConversion, Zero},
-	DispatchResult, SaturatedConversion,
+	DispatchResult,
 };
 use sp_std::prelude::*;
 
@@ -304,8 +304,7 @@ impl<T: Config> Pallet<T> {
 		}
 		if let Some(relayer) = Relayer::<T>::get() {
 			// Fee is per token minted
-			let nft_count: u32 = token_count.saturated_into();
-			let mint_fee: Balance = nft_count.saturating_mul(xls20_mint_fee as u32).into();
+			let mint_fee: Balance = (token_count as Balance).saturating_mul(xls20_mint_fee);
 			// Make the payment
 			T::MultiCurrency::transfer(
 				T::Xls20PaymentAsset::get(),
-- 
2.43.0


From 1398383e247d9fa75e00d3cd155e802cae25ae45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:32 +0000
Subject: [PATCH 23/59] fix: xls20 deposit of a token that exists overwrites
 its mapping

---
 pallet/xls20/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pallet/xls20/src/lib.rs b/pallet/xls20/src/lib.rs
index e75fd95..670ecd7 100644
--- a/pallet/xls20/src/lib.rs
+++ b/pallet/xls20/src/lib.rs
@@ -383,6 +383,11 @@ impl<T: Config> Xls20Ext for Pallet<T> {
 		let pallet_address = T::PalletId::get().into_account_truncating();
 		let xls20_collection = Xls20Collection::new(xls20_token.issuer, xls20_token.taxon);
 		if let Some(collection_uuid) = CollectionMapping::<T>::get(xls20_collection) {
+			// A token that exists is not minted again, its mapping must not be overwritten
+			ensure!(
+				T::NFTExt::get_token_owner(&(collection_uuid, xls20_token.sequence)).is_none(),
+				(T::WeightInfo::deposit_token_mint(), Error::<T>::MappingAlreadyExists.into())
+			);
 			// Mint the token and set up the mapping for reverse bridging
 			let _ = T::NFTMinter::mint_bridged_nft(
 				receiver,
-- 
2.43.0


From 2bcad6c87e701e13e557ccdee9873d3ee8424294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:53 +0000
Subject: [PATCH 24/59] fix: nfi data requests for SFT tokens that do not exist
 were accepted and charged

---
 pallet/nfi/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallet/nfi/src/lib.rs b/pallet/nfi/src/lib.rs
index 11de4cb..f706043 100644
--- a/pallet/nfi/src/lib.rs
+++ b/pallet/nfi/src/lib.rs
@@ -401,7 +401,7 @@ impl<T: Config> Pallet<T> {
 			}
 		}
 		if let Ok(sft_collection_owner) = T::SFTExt::get_collection_owner(token_id.0) {
-			return who == &sft_collection_owner;
+			return who == &sft_collection_owner && T::SFTExt::token_exists(token_id);
 		}
 		false
 	}
-- 
2.43.0


From f9435a76f7554c509fdd7a856ca522c44fe38400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 25/59] fix: nfi requests refused when the network's share of
 the fee rounds to zero

---
 pallet/nfi/src/lib.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pallet/nfi/src/lib.rs b/pallet/nfi/src/lib.rs
index f706043..7cfe3e4 100644
--- a/pallet/nfi/src/lib.rs
+++ b/pallet/nfi/src/lib.rs
@@ -330,13 +330,16 @@ impl<T: Config> Pallet<T> {
 			let network_fee = T::NetworkFeePercentage::get();
 			let network_amount = network_fee * total_fee;
 			total_fee_adjusted = total_fee.saturating_sub(network_amount);
-			T::MultiCurrency::transfer(
-				fee_details.asset_id,
-				who,
-				&tx_fee_pot_id,
-				network_amount,
-				Preservation::Expendable,
-			)?;
+			// Accounts that don't hold the asset can't receive transfers of 0
+			if !network_amount.is_zero() {
+				T::MultiCurrency::transfer(
+					fee_details.asset_id,
+					who,
+					&tx_fee_pot_id,
+					network_amount,
+					Preservation::Expendable,
+				)?;
+			}
 		}
 
 		// Make the payment to the receiver address
-- 
2.43.0


From ab59c772308fa461741302d40cba259d93710290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:38 +0000
Subject: [PATCH 26/59] fix: report a failed state oracle request when the
 notaries do not agree

The result of whichever notary voted last was passed on as agreed.
---
 pallet/ethy/src/impls.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallet/ethy/src/impls.rs b/pallet/ethy/src/impls.rs
index 872cc10..5b85e2d 100644
--- a/pallet/ethy/src/impls.rs
+++ b/pallet/ethy/src/impls.rs
@@ -804,7 +804,8 @@ impl<T: Config> Pallet<T> {
 		});
 		// cannot or will not reach consensus based on current notarizations
 		if total_count == notary_count || !can_reach_consensus {
-			return do_callback_and_clean_up(result);
+			// no result was agreed on, the last one must not be reported as if it were
+			return do_callback_and_clean_up(CheckedEthCallResult::DataProviderErr);
 		}
 
 		// update counts
-- 
2.43.0


From 8c9dfa956c9253cfb8df6f1cc8f7438f4ddcebad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:34 +0000
Subject: [PATCH 27/59] fix: settle a challenged claim proven valid when there
 is no relayer

The relayer is removed when another of its claims falls. A claim upheld after
that stayed challenged for ever: it was postponed again and again and the bond
of its challenger was never released.
---
 pallet/ethy/src/impls.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/pallet/ethy/src/impls.rs b/pallet/ethy/src/impls.rs
index 5b85e2d..3da4d13 100644
--- a/pallet/ethy/src/impls.rs
+++ b/pallet/ethy/src/impls.rs
@@ -693,10 +693,8 @@ impl<T: Config> Pallet<T> {
 		});
 
 		if PendingEventClaims::<T>::contains_key(event_claim_id) {
-			if let Some(relayer) = Relayer::<T>::get() {
-				if let Some((challenger, bond_amount)) =
-					<ChallengerAccount<T>>::take(event_claim_id)
-				{
+			if let Some((challenger, bond_amount)) = <ChallengerAccount<T>>::take(event_claim_id) {
+				if let Some(relayer) = Relayer::<T>::get() {
 					// Challenger is incorrect, the event is valid. Send funds to relayer
 					T::MultiCurrency::spend_hold(
 						T::BridgePalletId::get(),
@@ -705,15 +703,22 @@ impl<T: Config> Pallet<T> {
 						&[(relayer, bond_amount)],
 					)?;
 				} else {
-					// This shouldn't happen
-					log!(error, "💎 unexpected missing challenger account");
+					// The relayer was removed in the meantime, there is nobody to receive the bond
+					log!(error, "💎 No relayer set");
+					T::MultiCurrency::release_hold(
+						T::BridgePalletId::get(),
+						&challenger,
+						T::NativeAssetId::get(),
+						bond_amount,
+					)?;
 				}
-
-				PendingClaimStatus::<T>::insert(event_claim_id, EventClaimStatus::ProvenValid);
-				Self::deposit_event(Event::<T>::Verified { event_claim_id });
 			} else {
-				log!(error, "💎 No relayer set");
+				// This shouldn't happen
+				log!(error, "💎 unexpected missing challenger account");
 			}
+
+			PendingClaimStatus::<T>::insert(event_claim_id, EventClaimStatus::ProvenValid);
+			Self::deposit_event(Event::<T>::Verified { event_claim_id });
 		} else {
 			log!(error, "💎 unexpected empty claim");
 			return Err(Error::<T>::InvalidClaim.into());
-- 
2.43.0


From 64e7c448b02acd5291cb203a20072a86a030848e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:59 +0000
Subject: [PATCH 28/59] fix: an invalid event claim neither uses up its event
 id nor its slot

The id of a claim proven invalid stayed queued. When its block came the id was
recorded as processed, so that the real event could never be submitted, and a
claim submitted in its place was handled before its own challenge period.
---
 pallet/ethy/src/impls.rs |  2 ++
 pallet/ethy/src/lib.rs   | 16 ++++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/pallet/ethy/src/impls.rs b/pallet/ethy/src/impls.rs
index 3da4d13..3486cb3 100644
--- a/pallet/ethy/src/impls.rs
+++ b/pallet/ethy/src/impls.rs
@@ -198,6 +198,7 @@ impl<T: Config> Pallet<T> {
 
 		PendingEventClaims::<T>::insert(event_id, &event_claim);
 		PendingClaimStatus::<T>::insert(event_id, EventClaimStatus::Pending);
+		PendingClaimProcessAt::<T>::insert(event_id, process_at);
 		Self::deposit_event(Event::<T>::EventSubmit {
 			event_claim_id: event_id,
 			event_claim,
@@ -632,6 +633,7 @@ impl<T: Config> Pallet<T> {
 		});
 
 		if let Some(_event_claim) = PendingEventClaims::<T>::take(event_claim_id) {
+			PendingClaimProcessAt::<T>::remove(event_claim_id);
 			if let Some((challenger, bond_amount)) = <ChallengerAccount<T>>::take(event_claim_id) {
 				// Challenger is correct, the event is invalid.
 				// Return challenger bond to challenger and reward challenger with relayer bond
diff --git a/pallet/ethy/src/lib.rs b/pallet/ethy/src/lib.rs
index 0090c73..15136cc 100644
--- a/pallet/ethy/src/lib.rs
+++ b/pallet/ethy/src/lib.rs
@@ -328,6 +328,12 @@ pub mod pallet {
 	pub type PendingEventClaims<T: Config> =
 		StorageMap<_, Twox64Concat, EventClaimId, EventClaim<T::MaxEthData>, OptionQuery>;
 
+	/// The block in which a pending event claim is processed. An entry of MessagesValidAt for
+	/// any other block was left behind by an earlier, invalid claim with the same id
+	#[pallet::storage]
+	pub type PendingClaimProcessAt<T: Config> =
+		StorageMap<_, Twox64Concat, EventClaimId, BlockNumberFor<T>, OptionQuery>;
+
 	/// Queued event proofs to be processed once bridge has been re-enabled
 	#[pallet::storage]
 	pub type PendingEventProofs<T: Config> =
@@ -543,6 +549,14 @@ pub mod pallet {
 				// writes: PendingClaimStatus, PendingEventClaims
 				consumed_weight =
 					consumed_weight.saturating_add(DbWeight::get().reads_writes(2_u64, 2_u64));
+				// The claim was proven invalid. The event is neither processed now, nor is a claim
+				// that was submitted in its place and is still within its own challenge period
+				if !PendingEventClaims::<T>::contains_key(message_id)
+					|| PendingClaimProcessAt::<T>::get(message_id)
+						.map_or(false, |process_at| process_at != block_number)
+				{
+					continue;
+				}
 				if PendingClaimStatus::<T>::get(message_id) == Some(EventClaimStatus::Challenged) {
 					// We are still waiting on the challenge to be processed, push out by challenge
 					// period
@@ -562,6 +576,7 @@ pub mod pallet {
 						);
 						*v = message_ids_bounded;
 					});
+					PendingClaimProcessAt::<T>::insert(message_id, new_process_at);
 					Self::deposit_event(Event::<T>::ProcessAtExtended {
 						event_claim_id: message_id,
 						process_at: new_process_at,
@@ -611,6 +626,7 @@ pub mod pallet {
 
 				// Tidy up status check
 				PendingClaimStatus::<T>::remove(message_id);
+				PendingClaimProcessAt::<T>::remove(message_id);
 				message_processed = true;
 			}
 
-- 
2.43.0


From f064eb83525555309da0cb95f264892f164c052f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:13 +0000
Subject: [PATCH 29/59] fix: do not lose event claims submitted while the
 challenge period is zero

They were queued for the block being built, whose messages had already been
processed, and so were neither handled nor could be submitted again.
---
 pallet/ethy/src/impls.rs | 8 +++++++-
 pallet/ethy/src/lib.rs   | 4 ++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/pallet/ethy/src/impls.rs b/pallet/ethy/src/impls.rs
index 3486cb3..46d60dd 100644
--- a/pallet/ethy/src/impls.rs
+++ b/pallet/ethy/src/impls.rs
@@ -97,6 +97,12 @@ impl<T: Config> Pallet<T> {
 		paused_status.manual_pause || paused_status.authorities_change
 	}
 
+	/// The challenge period, at least one block as the messages of the current block have already
+	/// been processed
+	pub(crate) fn challenge_period() -> BlockNumberFor<T> {
+		ChallengePeriod::<T>::get().max(One::one())
+	}
+
 	/// Prunes claim ids that are less than the max contiguous claim id.
 	pub fn prune_claim_ids(claim_ids: &mut Vec<EventClaimId>) -> Weight {
 		let mut used_weight = Weight::zero();
@@ -190,7 +196,7 @@ impl<T: Config> Pallet<T> {
 		ensure!(!PendingEventClaims::<T>::contains_key(event_id), Error::<T>::EventReplayPending);
 
 		let process_at: BlockNumberFor<T> =
-			<frame_system::Pallet<T>>::block_number() + ChallengePeriod::<T>::get();
+			<frame_system::Pallet<T>>::block_number() + Self::challenge_period();
 		MessagesValidAt::<T>::try_mutate(process_at, |v| -> DispatchResult {
 			v.try_push(event_id).map_err(|_| Error::<T>::MessageTooLarge)?;
 			Ok(())
diff --git a/pallet/ethy/src/lib.rs b/pallet/ethy/src/lib.rs
index 15136cc..d00768c 100644
--- a/pallet/ethy/src/lib.rs
+++ b/pallet/ethy/src/lib.rs
@@ -59,7 +59,7 @@ use seed_primitives::{AssetId, Balance};
 use sp_core::bounded::WeakBoundedVec;
 use sp_runtime::{
 	offchain as rt_offchain,
-	traits::{MaybeSerializeDeserialize, Member},
+	traits::{MaybeSerializeDeserialize, Member, One},
 	Percent, RuntimeAppPublic,
 };
 use sp_std::{collections::btree_map::BTreeMap, prelude::*};
@@ -560,7 +560,7 @@ pub mod pallet {
 				if PendingClaimStatus::<T>::get(message_id) == Some(EventClaimStatus::Challenged) {
 					// We are still waiting on the challenge to be processed, push out by challenge
 					// period
-					let new_process_at = block_number + ChallengePeriod::<T>::get();
+					let new_process_at = block_number + Self::challenge_period();
 					// read + write: MessagesValidAt
 					consumed_weight =
 						consumed_weight.saturating_add(DbWeight::get().reads_writes(1_u64, 1_u64));
-- 
2.43.0


From 92f03eed203c0ed7d13c4e74fc0196ff4b6f9ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:17 +0000
Subject: [PATCH 30/59] fix: drop the votes of notaries that leave the set from
 open challenges

They were counted against the size of the new set, so a validator that rotated
its key voted twice, and with more votes than notaries the claim could not be
settled at all as its votes could not be cleared.
---
 pallet/ethy/src/impls.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pallet/ethy/src/impls.rs b/pallet/ethy/src/impls.rs
index 46d60dd..46e1776 100644
--- a/pallet/ethy/src/impls.rs
+++ b/pallet/ethy/src/impls.rs
@@ -947,6 +947,14 @@ impl<T: Config> Pallet<T> {
 		// A proof should've been generated now so we can reactivate the bridge with the new
 		// validator set
 		AuthoritiesChangedThisEra::<T>::kill();
+		// Votes of notaries that leave the set no longer count, a rotated key would vote twice
+		for event_claim_id in PendingClaimChallenges::<T>::get() {
+			for old_key in NotaryKeys::<T>::get() {
+				if !next_notary_keys.contains(&old_key) {
+					EventNotarizations::<T>::remove(event_claim_id, old_key);
+				}
+			}
+		}
 		// Store the new keys and increment the validator set id
 		// Next notary keys should be unset, until populated by new session logic
 		NotaryKeys::<T>::put(&next_notary_keys);
-- 
2.43.0


From db4a1d11fbb2ce75a0faae70fc5130930b00ccc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:32 +0000
Subject: [PATCH 31/59] fix: xrpl-bridge: remapping an asset leaves no stale
 currency mapping behind

---
 pallet/xrpl-bridge/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pallet/xrpl-bridge/src/lib.rs b/pallet/xrpl-bridge/src/lib.rs
index 2e2c0dd..489b644 100644
--- a/pallet/xrpl-bridge/src/lib.rs
+++ b/pallet/xrpl-bridge/src/lib.rs
@@ -814,6 +814,13 @@ pub mod pallet {
 			if let Some(xrpl_currency) = xrpl_currency {
 				// Validate currency to prevent errors during withdrawal
 				ensure!(xrpl_currency.symbol.is_valid(), Error::<T>::InvalidCurrencyCode);
+				// Remove the previous mappings of both sides so that the map stays one-to-one
+				if let Some(old_currency) = AssetIdToXRPL::<T>::take(asset_id) {
+					<XRPLToAssetId<T>>::remove(old_currency);
+				}
+				if let Some(old_asset_id) = XRPLToAssetId::<T>::take(xrpl_currency) {
+					<AssetIdToXRPL<T>>::remove(old_asset_id);
+				}
 				<AssetIdToXRPL<T>>::insert(asset_id, xrpl_currency);
 				<XRPLToAssetId<T>>::insert(xrpl_currency, asset_id);
 				Self::deposit_event(Event::XrplAssetMapSet { asset_id, xrpl_currency });
-- 
2.43.0


From 85d111568217fe09f5d7780ee904985bbb168bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:32 +0000
Subject: [PATCH 32/59] fix: xrpl-bridge: refuse an XRP withdrawal that does
 not fit an XRPL amount

---
 pallet/xrpl-bridge/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pallet/xrpl-bridge/src/lib.rs b/pallet/xrpl-bridge/src/lib.rs
index 489b644..6cab5c5 100644
--- a/pallet/xrpl-bridge/src/lib.rs
+++ b/pallet/xrpl-bridge/src/lib.rs
@@ -1237,7 +1237,9 @@ impl<T: Config> Pallet<T> {
 		let tx_data = match asset_id {
 			a if a == T::XrpAssetId::get() => {
 				ensure!(
-					amount.checked_add(tx_fee as Balance).is_some(),
+					amount
+						.checked_add(tx_fee as Balance)
+						.map_or(false, |total| total <= u64::MAX as Balance),
 					Error::<T>::WithdrawInvalidAmount
 				); // xrp amounts are `u64`
 
-- 
2.43.0


From 4566e1f2f4601491e6a21cecd78eb63bb97b4af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:32 +0000
Subject: [PATCH 33/59] fix: xrpl-bridge: do not switch to a stale ticket
 allocation

---
 pallet/xrpl-bridge/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pallet/xrpl-bridge/src/lib.rs b/pallet/xrpl-bridge/src/lib.rs
index 6cab5c5..8e1af5e 100644
--- a/pallet/xrpl-bridge/src/lib.rs
+++ b/pallet/xrpl-bridge/src/lib.rs
@@ -1743,7 +1743,9 @@ impl<T: Config> Pallet<T> {
 			let next_ticket_params = DoorTicketSequenceParamsNext::<T>::get(door_account);
 			if next_ticket_params == XrplTicketSequenceParams::default()
 				|| next_ticket_params.start_sequence == ticket_params.start_sequence
+				|| next_ticket_params.start_sequence < current_sequence
 			{
+				// a next allocation that starts below the current sequence would reuse tickets
 				return Err(Error::<T>::NextTicketSequenceParamsNotSet.into());
 			} else {
 				// update next to current and clear next
-- 
2.43.0


From 602964cb7e9647f4a54e72eb17ad6aa3a3025559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:32 +0000
Subject: [PATCH 34/59] fix: migration: a step never takes a block past its
 weight limit

---
 pallet/migration/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pallet/migration/src/lib.rs b/pallet/migration/src/lib.rs
index d5fd09b..3ed7006 100644
--- a/pallet/migration/src/lib.rs
+++ b/pallet/migration/src/lib.rs
@@ -226,7 +226,7 @@ impl<T: Config> Pallet<T> {
 		let base_weight = T::WeightInfo::migrate();
 
 		// Check we have enough weight to perform at least one step
-		if weight_limit.all_lt(base_weight.saturating_add(max_step_weight)) {
+		if base_weight.saturating_add(max_step_weight).any_gt(weight_limit) {
 			return Weight::zero();
 		}
 
@@ -254,7 +254,9 @@ impl<T: Config> Pallet<T> {
 		used_weight = used_weight.saturating_add(base_weight);
 
 		log::debug!(target: LOG_TARGET, "🦆 Starting multi-block migration for block {:?}", block_number);
-		while used_weight.all_lt(weight_limit) && step_counter < block_limit {
+		while used_weight.saturating_add(max_step_weight).all_lte(weight_limit)
+			&& step_counter < block_limit
+		{
 			// Perform one migration step on the current migration
 			let step_result = T::CurrentMigration::step(last_key);
 			last_key = step_result.last_key.clone();
-- 
2.43.0


From c7d81ec32208f244be233df23b8bf170380f2bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:48 +0000
Subject: [PATCH 35/59] fix: xrpl-bridge: bound XRP withdrawals by the largest
 XRPL amount

---
 pallet/xrpl-bridge/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pallet/xrpl-bridge/src/lib.rs b/pallet/xrpl-bridge/src/lib.rs
index 8e1af5e..bd909c4 100644
--- a/pallet/xrpl-bridge/src/lib.rs
+++ b/pallet/xrpl-bridge/src/lib.rs
@@ -74,6 +74,9 @@ pub use weights::WeightInfo;
 
 type AccountOf<T> = <T as frame_system::Config>::AccountId;
 
+/// The largest amount of XRP (in drops) that the XRPL can represent
+const MAX_XRP_DROPS: Balance = 100_000_000_000_000_000;
+
 #[frame_support::pallet]
 pub mod pallet {
 	use super::*;
@@ -1239,9 +1242,9 @@ impl<T: Config> Pallet<T> {
 				ensure!(
 					amount
 						.checked_add(tx_fee as Balance)
-						.map_or(false, |total| total <= u64::MAX as Balance),
+						.map_or(false, |total| total <= MAX_XRP_DROPS),
 					Error::<T>::WithdrawInvalidAmount
-				); // xrp amounts are `u64`
+				);
 
 				Self::process_xrp_withdrawal(destination, amount, tx_fee, who.clone())?
 			},
-- 
2.43.0


From 147ce7ef8dc5ca3c161a9ccc1c3799edc58a6f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:39 +0000
Subject: [PATCH 36/59] fix: vortex-distribution: a reward registered again
 replaces the earlier one

---
 pallet/vortex-distribution/src/lib.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pallet/vortex-distribution/src/lib.rs b/pallet/vortex-distribution/src/lib.rs
index 4a356b5..7a38c3b 100644
--- a/pallet/vortex-distribution/src/lib.rs
+++ b/pallet/vortex-distribution/src/lib.rs
@@ -532,6 +532,7 @@ pub mod pallet {
 		/// `rewards` - Rewards list
 		#[pallet::call_index(7)]
 		#[pallet::weight(<T as pallet::Config>::WeightInfo::register_rewards())]
+		#[transactional]
 		pub fn register_rewards(
 			origin: OriginFor<T>,
 			id: T::VtxDistIdentifier,
@@ -543,16 +544,18 @@ pub mod pallet {
 
 			match s {
 				VtxDistStatus::Enabled => {
-					let mut total_rewards: BalanceOf<T> = Zero::zero();
+					let mut total_vortex = TotalVortex::<T>::get(id);
 					for (who, amount) in rewards.iter() {
-						total_rewards += *amount;
-						VtxDistOrderbook::<T>::mutate(id, who.clone(), |entry| {
-							*entry = (*amount, false);
-						});
+						// A reward registered again replaces the earlier one, so that the total
+						// stays the sum of the orderbook
+						let (previous_amount, _) = VtxDistOrderbook::<T>::get(id, who);
+						total_vortex = total_vortex
+							.saturating_sub(previous_amount)
+							.checked_add(amount)
+							.ok_or(Error::<T>::InvalidAmount)?;
+						VtxDistOrderbook::<T>::insert(id, who, (*amount, false));
 					}
-					TotalVortex::<T>::mutate(id, |total_vortex| {
-						*total_vortex = total_vortex.saturating_add(total_rewards);
-					});
+					TotalVortex::<T>::insert(id, total_vortex);
 					Self::deposit_event(Event::RewardRegistered { id, rewards });
 					Ok(())
 				},
-- 
2.43.0


From d849960afaa37dc2ef52ab2a8b6823fd963fc2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:10 +0000
Subject: [PATCH 37/59] fix: vortex-distribution: pay the exact share of wide
 amounts on redemption

---
 pallet/vortex-distribution/src/lib.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pallet/vortex-distribution/src/lib.rs b/pallet/vortex-distribution/src/lib.rs
index 7a38c3b..5786610 100644
--- a/pallet/vortex-distribution/src/lib.rs
+++ b/pallet/vortex-distribution/src/lib.rs
@@ -48,8 +48,9 @@ use scale_info::TypeInfo;
 use seed_pallet_common::CreateExt;
 use seed_primitives::{AssetId, OffchainErr};
 use sp_runtime::{
+	helpers_128bit::multiply_by_rational_with_rounding,
 	traits::{AccountIdConversion, CheckedAdd, One, Saturating, StaticLookup, Zero},
-	RuntimeDebug,
+	RuntimeDebug, Rounding, SaturatedConversion,
 };
 use sp_staking::EraIndex;
 use sp_std::{convert::TryInto, prelude::*};
@@ -612,7 +613,15 @@ pub mod pallet {
 				// issue. then multiply it with the vortex token amount the user wants to reddem to
 				// get the resulting asset token amount.
 				let asset_balance = T::MultiCurrency::balance(asset_id, &vault_account);
-				let redeem_amount = vortex_balance.saturating_mul(asset_balance) / total_vortex;
+				// The product can exceed the balance type, so it is taken in a wider one
+				let redeem_amount: BalanceOf<T> = multiply_by_rational_with_rounding(
+					vortex_balance.saturated_into::<u128>(),
+					asset_balance.saturated_into::<u128>(),
+					total_vortex.saturated_into::<u128>(),
+					Rounding::Down,
+				)
+				.ok_or(Error::<T>::InvalidAmount)?
+				.saturated_into();
 
 				Self::safe_transfer(asset_id, &vault_account, &who, redeem_amount, false)?;
 			}
-- 
2.43.0


From 1edd1fa0fb31880e0a9e3629ad48631339e5f4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:34 +0000
Subject: [PATCH 38/59] fix: ethy-gadget: keep witnesses at their validators'
 positions over a set change

---
 ethy-gadget/src/witness_record.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/ethy-gadget/src/witness_record.rs b/ethy-gadget/src/witness_record.rs
index 6fb6221..409580c 100644
--- a/ethy-gadget/src/witness_record.rs
+++ b/ethy-gadget/src/witness_record.rs
@@ -78,6 +78,22 @@ impl WitnessRecord {
 		validators: ValidatorSet<AuthorityId>,
 		xrpl_validators: ValidatorSet<AuthorityId>,
 	) {
+		// Witnesses are recorded by the position of their validator, move those of the validators
+		// that stay to their new positions and drop those of the validators that have left
+		for witnesses in self.witnesses.values_mut() {
+			*witnesses = witnesses
+				.drain(..)
+				.filter_map(|(idx, signature)| {
+					let authority_id = self.validators.validators.get(idx as usize)?;
+					let new_idx = validators.authority_index(authority_id)?;
+					Some((new_idx as AuthorityIndex, signature))
+				})
+				.collect();
+			witnesses.sort_unstable_by_key(|(idx, _sig)| *idx);
+		}
+		for seen in self.has_witnessed.values_mut() {
+			seen.retain(|authority_id| validators.authority_index(authority_id).is_some());
+		}
 		self.validators = validators;
 		self.xrpl_validators = xrpl_validators;
 	}
-- 
2.43.0


From 9b721738b343946b9ae864ecba6b2d448c3311b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:42 +0000
Subject: [PATCH 39/59] fix: runtime: refuse DELEGATECALL to futurepasses

A contract could act as its caller towards the caller's futurepass.
---
 runtime/src/precompiles.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/precompiles.rs b/runtime/src/precompiles.rs
index 1b20b97..f3d36e9 100644
--- a/runtime/src/precompiles.rs
+++ b/runtime/src/precompiles.rs
@@ -89,11 +89,11 @@ pub type FutureversePrecompiles<R> = PrecompileSetBuilder<
 		PrecompileSetStartingWith<Erc721AssetPrefix, Erc721PrecompileSet<R>>,
 		PrecompileSetStartingWith<Erc1155AssetPrefix, Erc1155PrecompileSet<R>>,
 		PrecompileSetStartingWith<Erc20AssetPrefix, Erc20PrecompileSet<R>>,
+		// DELEGATECALL is not allowed, a contract could act as its caller towards the futurepass.
 		PrecompileSetStartingWith<
 			FuturepassPrefix,
 			FuturePassPrecompileSet<R>,
 			LimitRecursionTo<1>,
-			AllowDelegateCall,
 		>,
 	),
 >;
-- 
2.43.0


From b13a97f6e420ae6436b65c5f8dc3c7c45d2428d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:49 +0000
Subject: [PATCH 40/59] fix: futurepass: a delegate that becomes the owner
 stops being a delegate

---
 pallet/futurepass/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pallet/futurepass/src/lib.rs b/pallet/futurepass/src/lib.rs
index 2a74ba8..dd3e160 100644
--- a/pallet/futurepass/src/lib.rs
+++ b/pallet/futurepass/src/lib.rs
@@ -434,6 +434,11 @@ pub mod pallet {
 					Error::<T>::AccountAlreadyRegistered
 				);
 
+				// A delegate that becomes the owner stops being a delegate
+				if *new_owner != current_owner && T::Proxy::exists(&futurepass, new_owner, None) {
+					T::Proxy::remove_delegate(&caller, &futurepass, new_owner)?;
+				}
+
 				// Add the new owner as a proxy delegate with the most permissive type, i.e.,
 				T::Proxy::add_delegate(&caller, &futurepass, new_owner, &255)?; // owner is maxu8
 
-- 
2.43.0


From 6eeb8c6d91b2cdfa0b1f444cf7956212b1d3a800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:34 +0000
Subject: [PATCH 41/59] fix: futurepass precompile: calls with less than a
 selector no longer panic

---
 evm-precompiles/futurepass/src/lib.rs | 2 +-
 runtime/src/impls.rs                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/evm-precompiles/futurepass/src/lib.rs b/evm-precompiles/futurepass/src/lib.rs
index e70ac3b..9711a27 100644
--- a/evm-precompiles/futurepass/src/lib.rs
+++ b/evm-precompiles/futurepass/src/lib.rs
@@ -310,7 +310,7 @@ where
 
 		// restrict delegate access to whitelist
 		if call_to.0.as_bytes().starts_with(FUTUREPASS_PRECOMPILE_ADDRESS_PREFIX) {
-			let sub_call_selector = &call_data.inner[..4];
+			let sub_call_selector = call_data.inner.get(..4).unwrap_or_default();
 			if sub_call_selector
 				== &keccak256!("registerDelegateWithSignature(address,uint8,uint32,bytes)")[..4]
 				|| sub_call_selector == &keccak256!("unregisterDelegate(address)")[..4]
diff --git a/runtime/src/impls.rs b/runtime/src/impls.rs
index d1f0dd5..a4d871e 100644
--- a/runtime/src/impls.rs
+++ b/runtime/src/impls.rs
@@ -743,7 +743,7 @@ impl pallet_evm_precompiles_futurepass::EvmProxyCallFilter for ProxyType {
 			|| call.to.0.as_bytes().starts_with(FUTUREPASS_PRECOMPILE_ADDRESS_PREFIX)
 		{
 			// Whitelist for precompile side
-			let sub_call_selector = &call.call_data.inner[..4];
+			let sub_call_selector = call.call_data.inner.get(..4).unwrap_or_default();
 			if sub_call_selector
 				== &keccak256!("registerDelegateWithSignature(address,uint8,uint32,bytes)")[..4]
 				|| sub_call_selector == &keccak256!("unregisterDelegate(address)")[..4]
-- 
2.43.0


From 3bb5dbe35a0266603dc5ee491532636c144632d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:34 +0000
Subject: [PATCH 42/59] fix: futurepass precompile: refuse a create2 without a
 salt instead of panicking

---
 evm-precompiles/futurepass/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/evm-precompiles/futurepass/src/lib.rs b/evm-precompiles/futurepass/src/lib.rs
index 9711a27..91624fb 100644
--- a/evm-precompiles/futurepass/src/lib.rs
+++ b/evm-precompiles/futurepass/src/lib.rs
@@ -496,6 +496,7 @@ where
 				handle.record_log_costs_manual(4, 32)?;
 
 				let creation_code_len = call_data.inner.len();
+				ensure!(creation_code_len >= 32, revert("Futurepass: create2 salt missing"));
 				let call_data_vec = call_data.into_vec();
 
 				// salt is the last 32 bytes of the creation code
-- 
2.43.0


From 7a1f46db024a76bdd18c87afd2d9965bc96a8dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:11 +0000
Subject: [PATCH 43/59] fix: fee-proxy: check the actual target of a call with
 fee preferences for maintenance mode

---
 pallet/fee-proxy/src/runner.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pallet/fee-proxy/src/runner.rs b/pallet/fee-proxy/src/runner.rs
index c7e7e1e..4f241b8 100644
--- a/pallet/fee-proxy/src/runner.rs
+++ b/pallet/fee-proxy/src/runner.rs
@@ -319,6 +319,11 @@ where
 			input = new_input;
 			target = new_target;
 
+			// The fee preferences must not be a way to reach a blocked target
+			if !<T as Config>::MaintenanceChecker::validate_evm_call(&account, &target) {
+				return Err(RunnerError { error: Self::Error::WithdrawFailed, weight });
+			}
+
 			let base_fee_per_gas = <T as Config>::EVMBaseFeeProvider::evm_base_fee_per_gas();
 			let FeePreferencesData { path, total_fee_scaled, max_fee_scaled } =
 				get_fee_preferences_data::<T, U, P>(
-- 
2.43.0


From ae7b900370ea3f6ff844d142586e9a1100a7a217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:11 +0000
Subject: [PATCH 44/59] fix: common: saturate when scaling wei instead of
 panicking on fees beyond u128

---
 pallet/common/src/utils.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pallet/common/src/utils.rs b/pallet/common/src/utils.rs
index 2a3296d..1a6f136 100644
--- a/pallet/common/src/utils.rs
+++ b/pallet/common/src/utils.rs
@@ -49,14 +49,10 @@ pub fn next_asset_uuid(next_id: u32, parachain_id: u32) -> Option<u32> {
 pub fn scale_wei_to_correct_decimals(value: U256, decimals: u8) -> Balance {
 	let unit_value = U256::from(10).pow(U256::from(18) - U256::from(decimals));
 	let (quotient, remainder) = (value / unit_value, value % unit_value);
-	if remainder == U256::from(0) {
-		quotient.as_u128()
-	} else {
-		// if value has a fractional part < CPAY unit value
-		// it is lost in this divide operation
-		(quotient + 1).as_u128()
-		// (quotient).as_u128() // <- validate this is correct
-	}
+	// if value has a fractional part < CPAY unit value it is rounded up
+	let scaled = if remainder == U256::from(0) { quotient } else { quotient + 1 };
+	// amounts beyond any balance saturate
+	Balance::try_from(scaled).unwrap_or(Balance::MAX)
 }
 
 /// convert X dp to 18dp (wei)
-- 
2.43.0


From 704376632eb18ce36b297f5d2348ad531578e9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:11 +0000
Subject: [PATCH 45/59] fix: runtime: refuse a fee preferences transaction with
 a gas limit beyond u64 instead of panicking

---
 runtime/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtime/src/lib.rs b/runtime/src/lib.rs
index e7631ba..1890c97 100644
--- a/runtime/src/lib.rs
+++ b/runtime/src/lib.rs
@@ -2142,9 +2142,12 @@ fn transaction_asset_check(
 		let (payment_asset_id, _target, _input) =
 			FeePreferencesRunner::<Runtime, Runtime, Futurepass>::decode_input(input)?;
 
+		let gas_limit = u64::try_from(gas_limit)
+			.map_err(|_| TransactionValidityError::Invalid(InvalidTransaction::Payment))?;
+
 		let FeePreferencesData { max_fee_scaled, path, .. } =
 			get_fee_preferences_data::<Runtime, Runtime, Futurepass>(
-				gas_limit.as_u64(),
+				gas_limit,
 				<Runtime as pallet_fee_proxy::Config>::EVMBaseFeeProvider::evm_base_fee_per_gas(),
 				Some(max_fee_per_gas),
 				Some(max_priority_fee_per_gas),
-- 
2.43.0


From a9b929067cb025c8b4df8ff24ad9b15b1baf1b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:07 +0000
Subject: [PATCH 46/59] fix: reject an XRPL transaction with an empty signing
 public key instead of panicking

---
 pallet/xrpl/src/types.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pallet/xrpl/src/types.rs b/pallet/xrpl/src/types.rs
index c14094c..ee9a852 100644
--- a/pallet/xrpl/src/types.rs
+++ b/pallet/xrpl/src/types.rs
@@ -121,7 +121,9 @@ impl XRPLTransaction {
 			hex::decode(&self.signing_pub_key).map_err(|_| "Error decoding hex string")?;
 		// check prefix (ignore-case "ED") to determine the public key type
 		// uppercase first 2 characters and compare with "ED"
-		let key_prefix = &self.signing_pub_key[0..2].to_uppercase();
+		// an empty key (e.g. a multi-signed XRPL transaction) has no prefix
+		let key_prefix =
+			self.signing_pub_key.get(0..2).ok_or("Missing public key")?.to_uppercase();
 		match key_prefix.as_str() {
 			"ED" => {
 				// remove the first byte (prefix) from the public key
-- 
2.43.0


From e849a1cbe05f457523d91bf9cb7365fa60cb45db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:49 +0000
Subject: [PATCH 47/59] fix: a revoked doughnut or holder could still spend the
 fees of the issuer

---
 pallet/doughnut/src/lib.rs | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/pallet/doughnut/src/lib.rs b/pallet/doughnut/src/lib.rs
index 76678ae..163a858 100644
--- a/pallet/doughnut/src/lib.rs
+++ b/pallet/doughnut/src/lib.rs
@@ -300,6 +300,15 @@ where
 		else {
 			return Err("🍩 Doughnut validation failed.".into());
 		};
+		// A revoked doughnut or holder must not be able to spend the fees of the issuer
+		let (Ok(issuer_address), Ok(holder_address)) = (
+			crate::Pallet::<T>::get_address(doughnut_v1.issuer),
+			crate::Pallet::<T>::get_address(doughnut_v1.holder),
+		) else {
+			return Err("🍩 failed to get issuer or holder address".into());
+		};
+		crate::Pallet::<T>::ensure_not_revoked(doughnut, &issuer_address, &holder_address)
+			.map_err(|_| String::from("🍩 doughnut or holder revoked"))?;
 		// No need to do the doughnut verification again since already did in check_self_contained()
 		let Ok(fee_payer_doughnut) = crate::Pallet::<T>::get_address(doughnut_v1.fee_payer()) else {
 			log!(info, "🍩 failed to get fee payer address: {:?}", doughnut_v1.fee_payer());
@@ -477,15 +486,8 @@ pub mod pallet {
 				Error::<T>::HolderNotWhitelisted
 			);
 
-			// Ensure doughnut is not revoked
-			let doughnut_hash = keccak_256(&doughnut);
-			ensure!(!BlockedDoughnuts::<T>::get(doughnut_hash), Error::<T>::DoughnutRevoked);
-
-			// Ensure holder is not revoked
-			ensure!(
-				!BlockedHolders::<T>::get(issuer_address.clone(), holder_address.clone()),
-				Error::<T>::HolderRevoked
-			);
+			// Ensure neither the doughnut nor the holder is revoked
+			Self::ensure_not_revoked(&doughnut, &issuer_address, &holder_address)?;
 
 			// permission domain - topping validations
 			let Some(mut topping_payload) = doughnut_v1.get_topping(TRN_PERMISSION_DOMAIN) else {
@@ -589,6 +591,17 @@ where
 		Ok(T::AccountId::from(H160::from_slice(&account_id_20.0)))
 	}
 
+	/// Ensure that the issuer revoked neither the doughnut nor the holder
+	fn ensure_not_revoked(
+		doughnut: &[u8],
+		issuer: &T::AccountId,
+		holder: &T::AccountId,
+	) -> DispatchResult {
+		ensure!(!BlockedDoughnuts::<T>::get(keccak_256(doughnut)), Error::<T>::DoughnutRevoked);
+		ensure!(!BlockedHolders::<T>::get(issuer, holder), Error::<T>::HolderRevoked);
+		Ok(())
+	}
+
 	fn run_doughnut_common_validations(
 		doughnut_payload: Vec<u8>,
 	) -> Result<Doughnut, DispatchError> {
-- 
2.43.0


From d3d93a954d84fc382ae2c89bc86798287dc000e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:37 +0000
Subject: [PATCH 48/59] fix: a revoked doughnut could be used in another
 encoding of what the issuer signed

---
 pallet/doughnut/src/lib.rs | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/pallet/doughnut/src/lib.rs b/pallet/doughnut/src/lib.rs
index 163a858..74f8229 100644
--- a/pallet/doughnut/src/lib.rs
+++ b/pallet/doughnut/src/lib.rs
@@ -307,8 +307,13 @@ where
 		) else {
 			return Err("🍩 failed to get issuer or holder address".into());
 		};
-		crate::Pallet::<T>::ensure_not_revoked(doughnut, &issuer_address, &holder_address)
-			.map_err(|_| String::from("🍩 doughnut or holder revoked"))?;
+		crate::Pallet::<T>::ensure_not_revoked(
+			doughnut,
+			&doughnut_v1.payload(),
+			&issuer_address,
+			&holder_address,
+		)
+		.map_err(|_| String::from("🍩 doughnut or holder revoked"))?;
 		// No need to do the doughnut verification again since already did in check_self_contained()
 		let Ok(fee_payer_doughnut) = crate::Pallet::<T>::get_address(doughnut_v1.fee_payer()) else {
 			log!(info, "🍩 failed to get fee payer address: {:?}", doughnut_v1.fee_payer());
@@ -487,7 +492,12 @@ pub mod pallet {
 			);
 
 			// Ensure neither the doughnut nor the holder is revoked
-			Self::ensure_not_revoked(&doughnut, &issuer_address, &holder_address)?;
+			Self::ensure_not_revoked(
+				&doughnut,
+				&doughnut_v1.payload(),
+				&issuer_address,
+				&holder_address,
+			)?;
 
 			// permission domain - topping validations
 			let Some(mut topping_payload) = doughnut_v1.get_topping(TRN_PERMISSION_DOMAIN) else {
@@ -529,9 +539,14 @@ pub mod pallet {
 			// Only the issuer of the doughnut can revoke the doughnut
 			ensure!(who == Self::get_address(doughnut_v1.issuer)?, Error::<T>::CallerNotIssuer);
 			let doughnut_hash = keccak_256(&doughnut);
-			match revoke {
-				true => BlockedDoughnuts::<T>::insert(doughnut_hash, true),
-				false => BlockedDoughnuts::<T>::remove(doughnut_hash),
+			// What the issuer signed is revoked too: the same doughnut can be encoded in several
+			// ways, e.g. followed by other bytes or with the other form of the ECDSA signature
+			let payload_hash = keccak_256(&doughnut_v1.payload());
+			for hash in [doughnut_hash, payload_hash] {
+				match revoke {
+					true => BlockedDoughnuts::<T>::insert(hash, true),
+					false => BlockedDoughnuts::<T>::remove(hash),
+				}
 			}
 			Self::deposit_event(Event::<T>::DoughnutRevokeStateUpdated {
 				doughnut_hash,
@@ -594,10 +609,15 @@ where
 	/// Ensure that the issuer revoked neither the doughnut nor the holder
 	fn ensure_not_revoked(
 		doughnut: &[u8],
+		payload: &[u8],
 		issuer: &T::AccountId,
 		holder: &T::AccountId,
 	) -> DispatchResult {
-		ensure!(!BlockedDoughnuts::<T>::get(keccak_256(doughnut)), Error::<T>::DoughnutRevoked);
+		ensure!(
+			!BlockedDoughnuts::<T>::get(keccak_256(doughnut))
+				&& !BlockedDoughnuts::<T>::get(keccak_256(payload)),
+			Error::<T>::DoughnutRevoked
+		);
 		ensure!(!BlockedHolders::<T>::get(issuer, holder), Error::<T>::HolderRevoked);
 		Ok(())
 	}
-- 
2.43.0


From 2d35414d58586a5a32a86ce99aee2247a4b4c82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:02 +0000
Subject: [PATCH 49/59] fix: amounts beyond 64 bits passed the limits of a
 doughnut's topping

---
 runtime/src/impls.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/runtime/src/impls.rs b/runtime/src/impls.rs
index a4d871e..8682f3c 100644
--- a/runtime/src/impls.rs
+++ b/runtime/src/impls.rs
@@ -927,6 +927,15 @@ where
 }
 
 pub struct DoughnutCallValidator;
+impl DoughnutCallValidator {
+	/// An amount as a pact number. An amount that does not fit is the largest number rather than
+	/// a truncated one, which would pass the limits set in the topping.
+	// TODO: change the u64 conversion once pact Numeric support u128
+	fn numeric(amount: u128) -> Numeric {
+		Numeric(amount.try_into().unwrap_or(u64::MAX))
+	}
+}
+
 impl seed_pallet_common::ExtrinsicChecker for DoughnutCallValidator {
 	type Call = RuntimeCall;
 	type Extra = Topping;
@@ -973,10 +982,9 @@ impl seed_pallet_common::ExtrinsicChecker for DoughnutCallValidator {
 					.validate_module(
 						pallet_name,
 						function_name,
-						// TODO: change the u64 conversion once pact Numeric support u128
 						&[
 							PactType::StringLike(StringLike(destination.to_vec())),
-							PactType::Numeric(Numeric(value_u128 as u64)),
+							PactType::Numeric(Self::numeric(value_u128)),
 						],
 					)
 					.map_err(|_| pallet_doughnut::Error::<Runtime>::ToppingPermissionDenied)?;
@@ -992,10 +1000,9 @@ impl seed_pallet_common::ExtrinsicChecker for DoughnutCallValidator {
 					.validate_module(
 						pallet_name,
 						function_name,
-						// TODO: change the u64 conversion once pact Numeric support u128
 						&[
 							PactType::StringLike(StringLike(destination.to_vec())),
-							PactType::Numeric(Numeric(value_u128 as u64)),
+							PactType::Numeric(Self::numeric(value_u128)),
 						],
 					)
 					.map_err(|_| pallet_doughnut::Error::<Runtime>::ToppingPermissionDenied)?;
@@ -1041,11 +1048,10 @@ impl seed_pallet_common::ExtrinsicChecker for DoughnutCallValidator {
 					.validate_module(
 						pallet_name,
 						function_name,
-						// TODO: change the u64 conversion once pact Numeric support u128
 						&[
 							PactType::Numeric(Numeric(asset_id_u64)),
 							PactType::StringLike(StringLike(destination.to_vec())),
-							PactType::Numeric(Numeric(*amount as u64)),
+							PactType::Numeric(Self::numeric(*amount)),
 							PactType::Numeric(Numeric(keep_alive_u64)),
 						],
 					)
-- 
2.43.0


From e09d7dab98b4445528f9945bce555238ad79e6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:21 +0000
Subject: [PATCH 50/59] fix: maintenance mode and blocked accounts did not
 apply to XRPL and doughnut transactions

---
 pallet/doughnut/src/lib.rs |  9 +++++++
 runtime/src/lib.rs         | 51 ++++++++++++++++++++++++++++++++++++++
 2 files changed, 60 insertions(+)

diff --git a/pallet/doughnut/src/lib.rs b/pallet/doughnut/src/lib.rs
index 74f8229..d03d057 100644
--- a/pallet/doughnut/src/lib.rs
+++ b/pallet/doughnut/src/lib.rs
@@ -606,6 +606,15 @@ where
 		Ok(T::AccountId::from(H160::from_slice(&account_id_20.0)))
 	}
 
+	/// The issuer of an encoded doughnut
+	pub fn issuer(doughnut: &[u8]) -> Result<T::AccountId, DispatchError> {
+		let Doughnut::V1(doughnut_v1) = Self::run_doughnut_common_validations(doughnut.to_vec())?
+		else {
+			return Err(Error::<T>::UnsupportedDoughnutVersion)?;
+		};
+		Self::get_address(doughnut_v1.issuer)
+	}
+
 	/// Ensure that the issuer revoked neither the doughnut nor the holder
 	fn ensure_not_revoked(
 		doughnut: &[u8],
diff --git a/runtime/src/lib.rs b/runtime/src/lib.rs
index 1890c97..7ea99ee 100644
--- a/runtime/src/lib.rs
+++ b/runtime/src/lib.rs
@@ -2207,9 +2207,15 @@ impl fp_self_contained::SelfContainedCall for RuntimeCall {
 				Some(validate_self_contained_inner(self, call, signed_info, dispatch_info, len))
 			},
 			RuntimeCall::Xrpl(ref call) => {
+				if let Err(e) = check_maintenance_mode(self, signed_info, dispatch_info, len) {
+					return Some(Err(e));
+				}
 				call.validate_self_contained(signed_info, dispatch_info, len)
 			},
 			RuntimeCall::Doughnut(ref call) => {
+				if let Err(e) = check_maintenance_mode(self, signed_info, dispatch_info, len) {
+					return Some(Err(e));
+				}
 				call.validate_self_contained(signed_info, dispatch_info, len)
 			},
 			_ => None,
@@ -2227,9 +2233,15 @@ impl fp_self_contained::SelfContainedCall for RuntimeCall {
 				call.pre_dispatch_self_contained(signed_info, dispatch_info, len)
 			},
 			RuntimeCall::Xrpl(ref call) => {
+				if let Err(e) = check_maintenance_mode(self, signed_info, dispatch_info, len) {
+					return Some(Err(e));
+				}
 				call.pre_dispatch_self_contained(signed_info, dispatch_info, len)
 			},
 			RuntimeCall::Doughnut(ref call) => {
+				if let Err(e) = check_maintenance_mode(self, signed_info, dispatch_info, len) {
+					return Some(Err(e));
+				}
 				call.pre_dispatch_self_contained(signed_info, dispatch_info, len)
 			},
 			_ => None,
@@ -2265,6 +2277,45 @@ impl fp_self_contained::SelfContainedCall for RuntimeCall {
 	}
 }
 
+/// Maintenance mode and blocked accounts apply to self contained transactions as they do to signed
+/// ones; the accounts of a doughnut transaction are its holder and issuer
+fn check_maintenance_mode(
+	call: &RuntimeCall,
+	signed_info: &<RuntimeCall as fp_self_contained::SelfContainedCall>::SignedInfo,
+	dispatch_info: &DispatchInfoOf<RuntimeCall>,
+	len: usize,
+) -> Result<(), TransactionValidityError> {
+	use seed_pallet_common::ExtrinsicChecker as _;
+	use sp_runtime::traits::{SignedExtension as _, StaticLookup as _};
+
+	let (accounts, inner_call): (Vec<AccountId>, _) = match call {
+		RuntimeCall::Xrpl(pallet_xrpl::Call::transact { call: inner_call, .. }) => {
+			// the signer of a futurepass call has been resolved to the futurepass
+			let signer = if impls::FuturepassLookup::check_extrinsic(inner_call, &()) {
+				impls::FuturepassLookup::unlookup(*signed_info)
+			} else {
+				*signed_info
+			};
+			(vec![signer.into()], inner_call)
+		},
+		RuntimeCall::Doughnut(pallet_doughnut::Call::transact {
+			call: inner_call,
+			doughnut,
+			..
+		}) => {
+			let issuer = pallet_doughnut::Pallet::<Runtime>::issuer(doughnut)
+				.map_err(|_| TransactionValidityError::Invalid(InvalidTransaction::Call))?;
+			(vec![(*signed_info).into(), issuer], inner_call)
+		},
+		_ => return Ok(()),
+	};
+	for account in accounts {
+		pallet_maintenance_mode::MaintenanceChecker::<Runtime>::new()
+			.validate(&account, inner_call, dispatch_info, len)?;
+	}
+	Ok(())
+}
+
 fn validate_self_contained_inner(
 	call: &RuntimeCall,
 	eth_call: &pallet_ethereum::Call<Runtime>,
-- 
2.43.0


From 91b40723dfdbd75a1a8ef1ddadc3c91a42a1be11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:11 +0000
Subject: [PATCH 51/59] fix: decide a challenged claim once its notaries cannot
 accept it any more

---
 pallet/ethy/src/impls.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pallet/ethy/src/impls.rs b/pallet/ethy/src/impls.rs
index 46e1776..c8162b2 100644
--- a/pallet/ethy/src/impls.rs
+++ b/pallet/ethy/src/impls.rs
@@ -602,8 +602,10 @@ impl<T: Config> Pallet<T> {
 			}
 		}
 
-		if Percent::from_rational(nay_count, notary_count)
-			> (Percent::from_parts(100_u8 - T::NotarizationThreshold::get().deconstruct()))
+		// Shares are rounded down, so compare what is left to accept the claim: were the nays rounded
+		// down themselves, some sets of notaries could all vote without a decision
+		if Percent::from_rational(notary_count.saturating_sub(nay_count), notary_count)
+			< T::NotarizationThreshold::get()
 		{
 			// Claim is invalid (nays > (100% - NotarizationThreshold))
 			Self::handle_invalid_claim(event_claim_id)?;
-- 
2.43.0


From 573cd46ce6fa4271cdec7f580ef9da1dbecc2532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:48 +0000
Subject: [PATCH 52/59] fix: re-evaluate open challenges when the notary set
 changes

---
 pallet/ethy/src/impls.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/pallet/ethy/src/impls.rs b/pallet/ethy/src/impls.rs
index c8162b2..f91cfbe 100644
--- a/pallet/ethy/src/impls.rs
+++ b/pallet/ethy/src/impls.rs
@@ -590,8 +590,12 @@ impl<T: Config> Pallet<T> {
 			result,
 		);
 
+		Self::tally_notarizations(event_claim_id, T::AuthoritySet::validators().len() as u32)
+	}
+
+	/// Settle a challenged claim if the votes of the `notary_count` notaries decide it
+	fn tally_notarizations(event_claim_id: EventClaimId, notary_count: u32) -> DispatchResult {
 		// Count notarization votes
-		let notary_count = T::AuthoritySet::validators().len() as u32;
 		let mut yay_count = 0_u32;
 		let mut nay_count = 0_u32;
 		// TODO: store the count
@@ -962,6 +966,24 @@ impl<T: Config> Pallet<T> {
 		NotaryKeys::<T>::put(&next_notary_keys);
 		Self::update_xrpl_notary_keys(&next_notary_keys);
 		NotarySetId::<T>::mutate(|next_set_id| *next_set_id = next_set_id.wrapping_add(1));
+
+		// The votes of the notaries that stay may decide a challenge in the new set, there may be no
+		// other vote to come
+		let notary_count = next_notary_keys.len() as u32;
+		if notary_count > 0 {
+			for event_claim_id in PendingClaimChallenges::<T>::get() {
+				if let Err(err) = frame_support::storage::with_storage_layer(|| {
+					Self::tally_notarizations(event_claim_id, notary_count)
+				}) {
+					log!(
+						error,
+						"💎 settling challenged claim {:?} failed: {:?}",
+						event_claim_id,
+						err
+					);
+				}
+			}
+		}
 	}
 
 	/// Submit an event proof signing request in the block, for use by the ethy-gadget protocol
-- 
2.43.0


From fe04476ed16486b0f305b4f051ea3f91f71346fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:29 +0000
Subject: [PATCH 53/59] fix: emit the DEX precompile's logs with the documented
 indexed fields

---
 evm-precompiles/dex/src/lib.rs | 92 ++++++++++++++++------------------
 1 file changed, 44 insertions(+), 48 deletions(-)

diff --git a/evm-precompiles/dex/src/lib.rs b/evm-precompiles/dex/src/lib.rs
index 4a7a515..d09aeea 100644
--- a/evm-precompiles/dex/src/lib.rs
+++ b/evm-precompiles/dex/src/lib.rs
@@ -22,7 +22,7 @@ use pallet_dex::WeightInfo;
 use pallet_evm::{GasWeightMapping, Precompile};
 use precompile_utils::{constants::ERC20_PRECOMPILE_ADDRESS_PREFIX, prelude::*};
 use seed_primitives::{AccountId, AssetId, Balance, BlockNumber, CollectionUuid};
-use sp_core::{H160, H256, U256};
+use sp_core::{H160, U256};
 use sp_runtime::SaturatedConversion;
 use sp_std::{marker::PhantomData, vec::Vec};
 
@@ -159,7 +159,7 @@ where
 	<Runtime::RuntimeCall as Dispatchable>::RuntimeOrigin: From<Option<Runtime::AccountId>>,
 {
 	fn add_liquidity(handle: &mut impl PrecompileHandle) -> EvmResult<PrecompileOutput> {
-		handle.record_log_costs_manual(3, 32)?;
+		handle.record_log_costs_manual(2, 64)?;
 
 		// Parse input.
 		read_args!(
@@ -210,12 +210,11 @@ where
 
 		let pair: AccountId =
 			pallet_dex::types::TradingPair::new(asset_id_a, asset_id_b).pool_address();
-		log3(
+		log2(
 			<H160 as Into<Address>>::into(pair.into()),
 			SELECTOR_LOG_MINT,
 			caller.into(),
-			H256::from_slice(&EvmDataWriter::new().write(amount_0).build()),
-			EvmDataWriter::new().write(amount_1).build(),
+			EvmDataWriter::new().write(amount_0).write(amount_1).build(),
 		)
 		.record(handle)?;
 
@@ -272,12 +271,11 @@ where
 
 		let pair: AccountId =
 			pallet_dex::types::TradingPair::new(GAS_TOKEN_ID, asset_id_a).pool_address();
-		log3(
+		log2(
 			<H160 as Into<Address>>::into(pair.into()),
 			SELECTOR_LOG_MINT,
 			caller.into(),
-			H256::from_slice(&EvmDataWriter::new().write(amount_0).build()),
-			EvmDataWriter::new().write(amount_1).build(),
+			EvmDataWriter::new().write(amount_0).write(amount_1).build(),
 		)
 		.record(handle)?;
 
@@ -292,7 +290,7 @@ where
 	}
 
 	fn remove_liquidity(handle: &mut impl PrecompileHandle) -> EvmResult<PrecompileOutput> {
-		handle.record_log_costs_manual(4, 32)?;
+		handle.record_log_costs_manual(3, 64)?;
 
 		// Parse input.
 		read_args!(
@@ -341,13 +339,12 @@ where
 
 		let pair: AccountId =
 			pallet_dex::types::TradingPair::new(asset_id_a, asset_id_b).pool_address();
-		log4(
+		log3(
 			<H160 as Into<Address>>::into(pair.into()),
 			SELECTOR_LOG_BURN,
 			caller.into(),
-			H256::from_slice(&EvmDataWriter::new().write(amount_0).build()),
-			H256::from_slice(&EvmDataWriter::new().write(amount_1).build()),
-			EvmDataWriter::new().write(Address::from(to)).build(),
+			to,
+			EvmDataWriter::new().write(amount_0).write(amount_1).build(),
 		)
 		.record(handle)?;
 
@@ -356,7 +353,7 @@ where
 	}
 
 	fn remove_liquidity_eth(handle: &mut impl PrecompileHandle) -> EvmResult<PrecompileOutput> {
-		handle.record_log_costs_manual(4, 32)?;
+		handle.record_log_costs_manual(3, 64)?;
 
 		// Parse input.
 		read_args!(
@@ -399,13 +396,12 @@ where
 
 		let pair: AccountId =
 			pallet_dex::types::TradingPair::new(GAS_TOKEN_ID, asset_id_a).pool_address();
-		log4(
+		log3(
 			<H160 as Into<Address>>::into(pair.into()),
 			SELECTOR_LOG_BURN,
 			caller.into(),
-			H256::from_slice(&EvmDataWriter::new().write(amount_0).build()),
-			H256::from_slice(&EvmDataWriter::new().write(amount_1).build()),
-			EvmDataWriter::new().write(Address::from(to)).build(),
+			to,
+			EvmDataWriter::new().write(amount_0).write(amount_1).build(),
 		)
 		.record(handle)?;
 
@@ -455,7 +451,7 @@ where
 		)
 		.map_err(|e| revert(alloc::format!("DEX: Dispatched call failed with error: {:?}", e)))?;
 
-		handle.record_log_costs_manual(4 * swap_res.len(), 32)?;
+		handle.record_log_costs_manual(3 * swap_res.len(), 128 * swap_res.len())?;
 		for (asset_index, (amount_0_in, amount_1_in, amount_0_out, amount_1_out)) in
 			swap_res.into_iter().enumerate()
 		{
@@ -464,16 +460,16 @@ where
 				path_assets[asset_index + 1],
 			)
 			.pool_address();
-			log4(
+			log3(
 				<H160 as Into<Address>>::into(pair.into()),
 				SELECTOR_LOG_SWAP,
 				caller.clone().into(),
-				H256::from_slice(&EvmDataWriter::new().write(amount_0_in).build()),
-				H256::from_slice(&EvmDataWriter::new().write(amount_1_in).build()),
+				to,
 				EvmDataWriter::new()
+					.write(amount_0_in)
+					.write(amount_1_in)
 					.write(amount_0_out)
 					.write(amount_1_out)
-					.write(Address::from(to))
 					.build(),
 			)
 			.record(handle)?;
@@ -525,7 +521,7 @@ where
 		)
 		.map_err(|e| revert(alloc::format!("DEX: Dispatched call failed with error: {:?}", e)))?;
 
-		handle.record_log_costs_manual(4 * swap_res.len(), 32)?;
+		handle.record_log_costs_manual(3 * swap_res.len(), 128 * swap_res.len())?;
 		for (asset_index, (amount_0_in, amount_1_in, amount_0_out, amount_1_out)) in
 			swap_res.into_iter().enumerate()
 		{
@@ -534,16 +530,16 @@ where
 				path_assets[asset_index + 1],
 			)
 			.pool_address();
-			log4(
+			log3(
 				<H160 as Into<Address>>::into(pair.into()),
 				SELECTOR_LOG_SWAP,
 				caller.clone().into(),
-				H256::from_slice(&EvmDataWriter::new().write(amount_0_in).build()),
-				H256::from_slice(&EvmDataWriter::new().write(amount_1_in).build()),
+				to,
 				EvmDataWriter::new()
+					.write(amount_0_in)
+					.write(amount_1_in)
 					.write(amount_0_out)
 					.write(amount_1_out)
-					.write(Address::from(to))
 					.build(),
 			)
 			.record(handle)?;
@@ -594,7 +590,7 @@ where
 		)
 		.map_err(|e| revert(alloc::format!("DEX: Dispatched call failed with error: {:?}", e)))?;
 
-		handle.record_log_costs_manual(4 * swap_res.len(), 32)?;
+		handle.record_log_costs_manual(3 * swap_res.len(), 128 * swap_res.len())?;
 		for (asset_index, (amount_0_in, amount_1_in, amount_0_out, amount_1_out)) in
 			swap_res.into_iter().enumerate()
 		{
@@ -603,16 +599,16 @@ where
 				path_assets[asset_index + 1],
 			)
 			.pool_address();
-			log4(
+			log3(
 				<H160 as Into<Address>>::into(pair.into()),
 				SELECTOR_LOG_SWAP,
 				caller.clone().into(),
-				H256::from_slice(&EvmDataWriter::new().write(amount_0_in).build()),
-				H256::from_slice(&EvmDataWriter::new().write(amount_1_in).build()),
+				to,
 				EvmDataWriter::new()
+					.write(amount_0_in)
+					.write(amount_1_in)
 					.write(amount_0_out)
 					.write(amount_1_out)
-					.write(Address::from(to))
 					.build(),
 			)
 			.record(handle)?;
@@ -664,7 +660,7 @@ where
 		)
 		.map_err(|e| revert(alloc::format!("DEX: Dispatched call failed with error: {:?}", e)))?;
 
-		handle.record_log_costs_manual(4 * swap_res.len(), 32)?;
+		handle.record_log_costs_manual(3 * swap_res.len(), 128 * swap_res.len())?;
 		for (asset_index, (amount_0_in, amount_1_in, amount_0_out, amount_1_out)) in
 			swap_res.into_iter().enumerate()
 		{
@@ -673,16 +669,16 @@ where
 				path_assets[asset_index + 1],
 			)
 			.pool_address();
-			log4(
+			log3(
 				<H160 as Into<Address>>::into(pair.into()),
 				SELECTOR_LOG_SWAP,
 				caller.clone().into(),
-				H256::from_slice(&EvmDataWriter::new().write(amount_0_in).build()),
-				H256::from_slice(&EvmDataWriter::new().write(amount_1_in).build()),
+				to,
 				EvmDataWriter::new()
+					.write(amount_0_in)
+					.write(amount_1_in)
 					.write(amount_0_out)
 					.write(amount_1_out)
-					.write(Address::from(to))
 					.build(),
 			)
 			.record(handle)?;
@@ -734,7 +730,7 @@ where
 		)
 		.map_err(|e| revert(alloc::format!("DEX: Dispatched call failed with error: {:?}", e)))?;
 
-		handle.record_log_costs_manual(4 * swap_res.len(), 32)?;
+		handle.record_log_costs_manual(3 * swap_res.len(), 128 * swap_res.len())?;
 		for (asset_index, (amount_0_in, amount_1_in, amount_0_out, amount_1_out)) in
 			swap_res.into_iter().enumerate()
 		{
@@ -743,16 +739,16 @@ where
 				path_assets[asset_index + 1],
 			)
 			.pool_address();
-			log4(
+			log3(
 				<H160 as Into<Address>>::into(pair.into()),
 				SELECTOR_LOG_SWAP,
 				caller.clone().into(),
-				H256::from_slice(&EvmDataWriter::new().write(amount_0_in).build()),
-				H256::from_slice(&EvmDataWriter::new().write(amount_1_in).build()),
+				to,
 				EvmDataWriter::new()
+					.write(amount_0_in)
+					.write(amount_1_in)
 					.write(amount_0_out)
 					.write(amount_1_out)
-					.write(Address::from(to))
 					.build(),
 			)
 			.record(handle)?;
@@ -803,7 +799,7 @@ where
 		)
 		.map_err(|e| revert(alloc::format!("DEX: Dispatched call failed with error: {:?}", e)))?;
 
-		handle.record_log_costs_manual(4 * swap_res.len(), 32)?;
+		handle.record_log_costs_manual(3 * swap_res.len(), 128 * swap_res.len())?;
 		for (asset_index, (amount_0_in, amount_1_in, amount_0_out, amount_1_out)) in
 			swap_res.into_iter().enumerate()
 		{
@@ -812,16 +808,16 @@ where
 				path_assets[asset_index + 1],
 			)
 			.pool_address();
-			log4(
+			log3(
 				<H160 as Into<Address>>::into(pair.into()),
 				SELECTOR_LOG_SWAP,
 				caller.clone().into(),
-				H256::from_slice(&EvmDataWriter::new().write(amount_0_in).build()),
-				H256::from_slice(&EvmDataWriter::new().write(amount_1_in).build()),
+				to,
 				EvmDataWriter::new()
+					.write(amount_0_in)
+					.write(amount_1_in)
 					.write(amount_0_out)
 					.write(amount_1_out)
-					.write(Address::from(to))
 					.build(),
 			)
 			.record(handle)?;
-- 
2.43.0


From e8a87a63cab0c1445caf9d50e3b0d881af8dd738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:48 +0000
Subject: [PATCH 54/59] fix: log DEX liquidity amounts in the order of the
 pair's tokens

---
 evm-precompiles/dex/src/lib.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/evm-precompiles/dex/src/lib.rs b/evm-precompiles/dex/src/lib.rs
index d09aeea..16a85f5 100644
--- a/evm-precompiles/dex/src/lib.rs
+++ b/evm-precompiles/dex/src/lib.rs
@@ -77,6 +77,15 @@ pub enum Action {
 	GetAmountsIn = "getAmountsIn(uint256,address[])",
 }
 
+/// The amounts in the order of the pair's tokens, as the pair's logs state them
+fn in_pair_order(a: (AssetId, Balance), b: (AssetId, Balance)) -> (Balance, Balance) {
+	if a.0 < b.0 {
+		(a.1, b.1)
+	} else {
+		(b.1, a.1)
+	}
+}
+
 /// Provides access to the Dex pallet
 pub struct DexPrecompile<Runtime>(PhantomData<Runtime>);
 
@@ -210,11 +219,12 @@ where
 
 		let pair: AccountId =
 			pallet_dex::types::TradingPair::new(asset_id_a, asset_id_b).pool_address();
+		let (log_0, log_1) = in_pair_order((asset_id_a, amount_0), (asset_id_b, amount_1));
 		log2(
 			<H160 as Into<Address>>::into(pair.into()),
 			SELECTOR_LOG_MINT,
 			caller.into(),
-			EvmDataWriter::new().write(amount_0).write(amount_1).build(),
+			EvmDataWriter::new().write(log_0).write(log_1).build(),
 		)
 		.record(handle)?;
 
@@ -271,11 +281,12 @@ where
 
 		let pair: AccountId =
 			pallet_dex::types::TradingPair::new(GAS_TOKEN_ID, asset_id_a).pool_address();
+		let (log_0, log_1) = in_pair_order((asset_id_a, amount_0), (GAS_TOKEN_ID, amount_1));
 		log2(
 			<H160 as Into<Address>>::into(pair.into()),
 			SELECTOR_LOG_MINT,
 			caller.into(),
-			EvmDataWriter::new().write(amount_0).write(amount_1).build(),
+			EvmDataWriter::new().write(log_0).write(log_1).build(),
 		)
 		.record(handle)?;
 
@@ -339,12 +350,13 @@ where
 
 		let pair: AccountId =
 			pallet_dex::types::TradingPair::new(asset_id_a, asset_id_b).pool_address();
+		let (log_0, log_1) = in_pair_order((asset_id_a, amount_0), (asset_id_b, amount_1));
 		log3(
 			<H160 as Into<Address>>::into(pair.into()),
 			SELECTOR_LOG_BURN,
 			caller.into(),
 			to,
-			EvmDataWriter::new().write(amount_0).write(amount_1).build(),
+			EvmDataWriter::new().write(log_0).write(log_1).build(),
 		)
 		.record(handle)?;
 
@@ -396,12 +408,13 @@ where
 
 		let pair: AccountId =
 			pallet_dex::types::TradingPair::new(GAS_TOKEN_ID, asset_id_a).pool_address();
+		let (log_0, log_1) = in_pair_order((asset_id_a, amount_0), (GAS_TOKEN_ID, amount_1));
 		log3(
 			<H160 as Into<Address>>::into(pair.into()),
 			SELECTOR_LOG_BURN,
 			caller.into(),
 			to,
-			EvmDataWriter::new().write(amount_0).write(amount_1).build(),
+			EvmDataWriter::new().write(log_0).write(log_1).build(),
 		)
 		.record(handle)?;
 
-- 
2.43.0


From f169590dbe2427507e13a3803bb391b040aa67ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:01 +0000
Subject: [PATCH 55/59] fix: check function modifiers in the futurepass
 precompile

---
 evm-precompiles/futurepass/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/evm-precompiles/futurepass/src/lib.rs b/evm-precompiles/futurepass/src/lib.rs
index 91624fb..a61fee1 100644
--- a/evm-precompiles/futurepass/src/lib.rs
+++ b/evm-precompiles/futurepass/src/lib.rs
@@ -160,6 +160,14 @@ where
 				},
 			};
 
+			if let Err(err) = handle.check_function_modifier(match selector {
+				Action::Default | Action::ProxyCall => FunctionModifier::Payable,
+				Action::DelegateType | Action::Owner => FunctionModifier::View,
+				_ => FunctionModifier::NonPayable,
+			}) {
+				return Some(Err(err.into()));
+			}
+
 			match selector {
 				Action::Default => Self::receive(handle),
 				Action::DelegateType => Self::delegate_type(handle),
-- 
2.43.0


From af306160ece5381182572f71f677d81263210452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:12 +0000
Subject: [PATCH 56/59] fix: let only a futurepass's owner renounce or transfer
 it through its precompile

---
 evm-precompiles/futurepass/src/lib.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/evm-precompiles/futurepass/src/lib.rs b/evm-precompiles/futurepass/src/lib.rs
index a61fee1..053986f 100644
--- a/evm-precompiles/futurepass/src/lib.rs
+++ b/evm-precompiles/futurepass/src/lib.rs
@@ -602,11 +602,23 @@ where
 		Ok(succeed(EvmDataWriter::new().write(Address::from(owner)).build()))
 	}
 
+	/// The caller must own the futurepass it calls
+	fn ensure_owner(handle: &mut impl PrecompileHandle, caller: H160) -> EvmResult<()> {
+		handle.record_cost(RuntimeHelper::<Runtime>::db_read_gas_cost())?;
+		ensure!(
+			pallet_futurepass::Holders::<Runtime>::get(Runtime::AccountId::from(caller))
+				== Some(handle.code_address().into()),
+			revert("Futurepass: NotFuturepassOwner")
+		);
+		Ok(())
+	}
+
 	fn renounce_ownership(handle: &mut impl PrecompileHandle) -> EvmResult<PrecompileOutput> {
 		handle.record_log_costs_manual(3, 32)?;
 
 		let caller = handle.context().caller;
 		let burn_account: H160 = H160::default();
+		Self::ensure_owner(handle, caller)?;
 
 		// Dispatch call (if enough gas).
 		RuntimeHelper::<Runtime>::try_dispatch(
@@ -639,6 +651,7 @@ where
 		read_args!(handle, { new_owner: Address });
 		let new_owner: H160 = new_owner.into();
 		let caller = handle.context().caller;
+		Self::ensure_owner(handle, caller)?;
 
 		// Dispatch call (if enough gas).
 		RuntimeHelper::<Runtime>::try_dispatch(
-- 
2.43.0


From eef6090922ba60665ba790cbfefce61a256d2046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:30 +0000
Subject: [PATCH 57/59] fix: charge the gas of contracts created through a
 futurepass

---
 evm-precompiles/futurepass/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/evm-precompiles/futurepass/src/lib.rs b/evm-precompiles/futurepass/src/lib.rs
index 053986f..0b66678 100644
--- a/evm-precompiles/futurepass/src/lib.rs
+++ b/evm-precompiles/futurepass/src/lib.rs
@@ -486,6 +486,8 @@ where
 					evm_config,
 				)
 				.map_err(|_| RevertReason::custom("Futurepass: create failed"))?;
+				// the creation ran in an executor of its own
+				handle.record_cost(execution_info.used_gas.standard.low_u64())?;
 
 				// emit ContractCreated(CREATE, contractAddress, value, bytes32(0));
 				log4(
@@ -561,6 +563,8 @@ where
 					evm_config,
 				)
 				.map_err(|_| RevertReason::custom("Futurepass: create2 failed"))?;
+				// the creation ran in an executor of its own
+				handle.record_cost(execution_info.used_gas.standard.low_u64())?;
 
 				// emit ContractCreated(CREATE2, contractAddress, value, salt);
 				log4(
-- 
2.43.0


From 8d84fa60a3b44a48cdda5d596d4ebc854e47273e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:43 +0000
Subject: [PATCH 58/59] fix: refuse set_payee to the stake like bond with it

---
 runtime/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtime/src/lib.rs b/runtime/src/lib.rs
index 7ea99ee..64aa226 100644
--- a/runtime/src/lib.rs
+++ b/runtime/src/lib.rs
@@ -244,7 +244,9 @@ impl frame_support::traits::Contains<RuntimeCall> for CallFilter {
 			RuntimeCall::XRPLBridge(pallet_xrpl_bridge::Call::submit_challenge { .. }) => false,
 			// Calls to direct rewards to be re-staked are not allowed, as it does not make sense in
 			// a dual-currency with pallet-staking context
-			RuntimeCall::Staking(pallet_staking::Call::bond { payee, .. }) => {
+			RuntimeCall::Staking(
+				pallet_staking::Call::bond { payee, .. } | pallet_staking::Call::set_payee { payee },
+			) => {
 				if let RewardDestination::Staked = payee {
 					return false;
 				}
-- 
2.43.0


From 5f0b347fc0729ce63bf463fe14e1b397dc60a6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:59 +0000
Subject: [PATCH 59/59] fix: take only one address for each token

---
 runtime/src/impls.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/src/impls.rs b/runtime/src/impls.rs
index 8682f3c..0cce5f5 100644
--- a/runtime/src/impls.rs
+++ b/runtime/src/impls.rs
@@ -271,7 +271,8 @@ where
 		let h160_address: H160 = evm_id.into();
 		let (prefix_part, id_part) = h160_address.as_fixed_bytes().split_at(4);
 
-		if prefix_part == precompile_address_prefix {
+		// Only the address that runtime_id_to_evm_id gives stands for the id
+		if prefix_part == precompile_address_prefix && id_part[4..].iter().all(|b| *b == 0) {
 			let mut buf = [0u8; 4];
 			buf.copy_from_slice(&id_part[..4]);
 			let runtime_id: RuntimeId = u32::from_be_bytes(buf).into();
-- 
2.43.0

