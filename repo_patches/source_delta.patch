From c33a6861b4e3d615ddc3d4be600732d8d2f71e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:25 +0000
Subject: [PATCH 01/26] fix: compute the proposer's share of a slashing reward
 without truncating the weight ratio to zero

---
 ethereum-consensus/src/altair/helpers.rs    | 3 +--
 ethereum-consensus/src/bellatrix/helpers.rs | 3 +--
 ethereum-consensus/src/electra/helpers.rs   | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/ethereum-consensus/src/altair/helpers.rs b/ethereum-consensus/src/altair/helpers.rs
index 9c7f9b4..69338b8 100644
--- a/ethereum-consensus/src/altair/helpers.rs
+++ b/ethereum-consensus/src/altair/helpers.rs
@@ -403,8 +403,7 @@ pub fn slash_validator<
 
     let whistleblower_reward =
         state.validators[slashed_index].effective_balance / context.whistleblower_reward_quotient;
-    let proposer_reward_scaling_factor = PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
-    let proposer_reward = whistleblower_reward * proposer_reward_scaling_factor;
+    let proposer_reward = whistleblower_reward * PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
     increase_balance(state, proposer_index, proposer_reward);
     increase_balance(state, whistleblower_index, whistleblower_reward - proposer_reward);
     Ok(())
diff --git a/ethereum-consensus/src/bellatrix/helpers.rs b/ethereum-consensus/src/bellatrix/helpers.rs
index dcf7e47..3de78f8 100644
--- a/ethereum-consensus/src/bellatrix/helpers.rs
+++ b/ethereum-consensus/src/bellatrix/helpers.rs
@@ -105,8 +105,7 @@ pub fn slash_validator<
     let whistleblower_index = whistleblower_index.unwrap_or(proposer_index);
     let whistleblower_reward =
         state.validators[slashed_index].effective_balance / context.whistleblower_reward_quotient;
-    let proposer_reward_scaling_factor = PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
-    let proposer_reward = whistleblower_reward * proposer_reward_scaling_factor;
+    let proposer_reward = whistleblower_reward * PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
     increase_balance(state, proposer_index, proposer_reward);
     increase_balance(state, whistleblower_index, whistleblower_reward - proposer_reward);
     Ok(())
diff --git a/ethereum-consensus/src/electra/helpers.rs b/ethereum-consensus/src/electra/helpers.rs
index 2495cdb..8ad7dba 100644
--- a/ethereum-consensus/src/electra/helpers.rs
+++ b/ethereum-consensus/src/electra/helpers.rs
@@ -701,8 +701,7 @@ pub fn slash_validator<
     let whistleblower_index = whistleblower_index.unwrap_or(proposer_index);
     let whistleblower_reward = state.validators[slashed_index].effective_balance /
         context.whistleblower_reward_quotient_electra;
-    let proposer_reward_scaling_factor = PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
-    let proposer_reward = whistleblower_reward * proposer_reward_scaling_factor;
+    let proposer_reward = whistleblower_reward * PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
     increase_balance(state, proposer_index, proposer_reward);
     increase_balance(state, whistleblower_index, whistleblower_reward - proposer_reward);
     Ok(())
-- 
2.43.0


From d58f80a0501b80e37e53657342d9e1e129b75761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:47 +0000
Subject: [PATCH 02/26] fix: read the time once per slot in SlotStream so a
 slot is not yielded twice

---
 ethereum-consensus/src/clock.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/ethereum-consensus/src/clock.rs b/ethereum-consensus/src/clock.rs
index 0f0ebb7..285d7ce 100644
--- a/ethereum-consensus/src/clock.rs
+++ b/ethereum-consensus/src/clock.rs
@@ -200,7 +200,10 @@ impl<T: TimeProvider + Send + Sync> Clock<T> {
     /// Return a `Duration` until the next `slot` relative to the
     /// current time as determined by the clock.
     pub fn duration_until_next_slot(&self) -> Duration {
-        let current_time = self.get_current_time();
+        self.duration_until_next_slot_at(self.get_current_time())
+    }
+
+    fn duration_until_next_slot_at(&self, current_time: u128) -> Duration {
         if self.before_genesis_at(current_time) {
             Duration::from_nanos(u128_to_u64(self.genesis_time - current_time))
         } else {
@@ -240,8 +243,10 @@ pub struct SlotStream<T: TimeProvider + Send + Sync> {
 #[cfg(feature = "async")]
 impl<T: TimeProvider + Send + Sync> Clock<T> {
     pub fn into_stream(self) -> SlotStream<T> {
-        let delay = Box::pin(sleep(self.duration_until_next_slot()));
-        let current_slot = self.current_slot();
+        // NOTE: read the time once so that the delay is relative to the slot that is yielded
+        let current_time = self.get_current_time();
+        let delay = Box::pin(sleep(self.duration_until_next_slot_at(current_time)));
+        let current_slot = self.slot_at_time(current_time);
         SlotStream { delay, clock: self, first_slot: current_slot }
     }
 }
@@ -257,8 +262,10 @@ impl<T: TimeProvider + Send + Sync> Stream for SlotStream<T> {
         } else {
             match Pin::new(&mut self.delay).poll(cx) {
                 Poll::Ready(_) => {
-                    self.delay = Box::pin(sleep(self.clock.duration_until_next_slot()));
-                    Poll::Ready(self.clock.current_slot())
+                    let current_time = self.clock.get_current_time();
+                    let delay = self.clock.duration_until_next_slot_at(current_time);
+                    self.delay = Box::pin(sleep(delay));
+                    Poll::Ready(self.clock.slot_at_time(current_time))
                 }
                 Poll::Pending => Poll::Pending,
             }
-- 
2.43.0


From e04ec5e78acbcaaf8a2189d67fc13f5ca3930078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:03 +0000
Subject: [PATCH 03/26] fix: deserialize sequences of strings from sources that
 cannot lend their input

---
 ethereum-consensus/src/serde.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ethereum-consensus/src/serde.rs b/ethereum-consensus/src/serde.rs
index 26f5e46..b15f45d 100644
--- a/ethereum-consensus/src/serde.rs
+++ b/ethereum-consensus/src/serde.rs
@@ -127,8 +127,8 @@ pub mod seq_of_str {
         {
             let mut coll = Vec::with_capacity(access.size_hint().unwrap_or(0));
 
-            while let Some(elem) = access.next_element()? {
-                let recovered_elem = T::from_str(elem).map_err(|_| {
+            while let Some(elem) = access.next_element::<String>()? {
+                let recovered_elem = T::from_str(&elem).map_err(|_| {
                     Error::custom("failure to parse element of sequence from string")
                 })?;
                 coll.push(recovered_elem);
-- 
2.43.0


From af66e1eef63a93984ab37c29188dd9dac982badd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:00 +0000
Subject: [PATCH 04/26] fix: serialize a custom network as the config directory
 it deserializes from

---
 ethereum-consensus/src/networks.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/networks.rs b/ethereum-consensus/src/networks.rs
index 73e0fe9..fb2806b 100644
--- a/ethereum-consensus/src/networks.rs
+++ b/ethereum-consensus/src/networks.rs
@@ -34,7 +34,11 @@ impl std::fmt::Display for Network {
 
 impl From<Network> for String {
     fn from(value: Network) -> Self {
-        format!("{value}")
+        match value {
+            // the config directory is what `From<String>` (and so deserialization) expects
+            Network::Custom(config_dir) => config_dir,
+            network => network.to_string(),
+        }
     }
 }
 
-- 
2.43.0


From 7bd9887c7ab3b7060307a0adde41dac74372bedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:37 +0000
Subject: [PATCH 05/26] fix: electra: offset each committee's aggregation bits
 by the sizes of the committees before it

---
 ethereum-consensus/src/electra/helpers.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/electra/helpers.rs b/ethereum-consensus/src/electra/helpers.rs
index 8ad7dba..0574a5f 100644
--- a/ethereum-consensus/src/electra/helpers.rs
+++ b/ethereum-consensus/src/electra/helpers.rs
@@ -299,13 +299,15 @@ pub fn get_attesting_indices<
 
     let mut indices = HashSet::with_capacity(MAX_VALIDATORS_PER_SLOT);
 
-    for (committee_offset, index) in committee_indices.into_iter().enumerate() {
+    let mut committee_offset = 0;
+    for index in committee_indices {
         let committee = get_beacon_committee(state, attestation.data.slot, index, context)?;
         for (i, validator_index) in committee.iter().enumerate() {
             if attestation.aggregation_bits[committee_offset + i] {
                 indices.insert(*validator_index);
             }
         }
+        committee_offset += committee.len();
     }
 
     Ok(indices)
-- 
2.43.0


From 56ba73f694cc058e296162cb52ebfb863a740830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:21 +0000
Subject: [PATCH 06/26] fix: electra: a deposit with an invalid signature is
 not an error

---
 .../src/electra/block_processing.rs           | 29 +++++++++++--------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index 302b6eb..c4c835a 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -657,30 +657,35 @@ pub fn apply_deposit<
     if let Some((index, validator)) = validator {
         state.pending_balance_deposits.push(PendingBalanceDeposit { index, amount });
 
-        is_valid_deposit_signature(
-            public_key,
-            withdrawal_credentials.clone(),
-            amount,
-            signature,
-            context,
-        )?;
-
-        // NOTE: if we did not return from signature check, then we know the signature is valid
+        // NOTE: an invalid signature is not an error, such a deposit just can not switch credentials
         if is_compounding_withdrawal_credential(withdrawal_credentials) &&
-            has_eth1_withdrawal_credential(validator)
+            has_eth1_withdrawal_credential(validator) &&
+            is_valid_deposit_signature(
+                public_key,
+                withdrawal_credentials.clone(),
+                amount,
+                signature,
+                context,
+            )
+            .is_ok()
         {
             switch_to_compounding_validator(state, index, context)?;
         }
         return Ok(());
     }
 
-    is_valid_deposit_signature(
+    if is_valid_deposit_signature(
         public_key,
         withdrawal_credentials.clone(),
         amount,
         signature,
         context,
-    )?;
+    )
+    .is_err()
+    {
+        // NOTE: explicitly return with no error and also no further mutations to `state`
+        return Ok(());
+    }
     add_validator_to_registry(state, public_key.clone(), withdrawal_credentials.clone(), amount);
     Ok(())
 }
-- 
2.43.0


From 69f8b8e635aeb152d66a87f4300e5142cab8d207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:37 +0000
Subject: [PATCH 07/26] fix: measure how long an exiting validator has been
 active from its activation

---
 ethereum-consensus/src/deneb/block_processing.rs   | 3 +--
 ethereum-consensus/src/electra/block_processing.rs | 3 +--
 ethereum-consensus/src/phase0/block_processing.rs  | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/ethereum-consensus/src/deneb/block_processing.rs b/ethereum-consensus/src/deneb/block_processing.rs
index 2e57c71..3afdb73 100644
--- a/ethereum-consensus/src/deneb/block_processing.rs
+++ b/ethereum-consensus/src/deneb/block_processing.rs
@@ -320,8 +320,7 @@ pub fn process_voluntary_exit<
             InvalidVoluntaryExit::EarlyExit { current_epoch, exit_epoch: voluntary_exit.epoch },
         )))
     }
-    let minimum_time_active =
-        validator.activation_eligibility_epoch + context.shard_committee_period;
+    let minimum_time_active = validator.activation_epoch + context.shard_committee_period;
     if current_epoch < minimum_time_active {
         return Err(invalid_operation_error(InvalidOperation::VoluntaryExit(
             InvalidVoluntaryExit::ValidatorIsNotActiveForLongEnough {
diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index c4c835a..b6740cb 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -824,8 +824,7 @@ pub fn process_voluntary_exit<
         )));
     }
 
-    let minimum_time_active =
-        validator.activation_eligibility_epoch + context.shard_committee_period;
+    let minimum_time_active = validator.activation_epoch + context.shard_committee_period;
     if current_epoch < minimum_time_active {
         return Err(invalid_operation_error(InvalidOperation::VoluntaryExit(
             InvalidVoluntaryExit::ValidatorIsNotActiveForLongEnough {
diff --git a/ethereum-consensus/src/phase0/block_processing.rs b/ethereum-consensus/src/phase0/block_processing.rs
index 3570de0..cc0c4a2 100644
--- a/ethereum-consensus/src/phase0/block_processing.rs
+++ b/ethereum-consensus/src/phase0/block_processing.rs
@@ -497,8 +497,7 @@ pub fn process_voluntary_exit<
         )))
     }
 
-    let minimum_time_active =
-        validator.activation_eligibility_epoch + context.shard_committee_period;
+    let minimum_time_active = validator.activation_epoch + context.shard_committee_period;
     if current_epoch < minimum_time_active {
         return Err(invalid_operation_error(InvalidOperation::VoluntaryExit(
             InvalidVoluntaryExit::ValidatorIsNotActiveForLongEnough {
-- 
2.43.0


From 55de27de5183f098f08b845b2d2ec472732fc58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:48 +0000
Subject: [PATCH 08/26] fix: electra: accept the expected deposits and no
 others

---
 ethereum-consensus/src/electra/block_processing.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index b6740cb..e35377b 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -448,11 +448,11 @@ pub fn process_operations<
             return Err(invalid_operation_error(InvalidOperation::Deposit(
                 InvalidDeposit::IncorrectCount { expected, count: body.deposits.len() },
             )));
-        } else if !body.deposits.is_empty() {
-            return Err(invalid_operation_error(InvalidOperation::Deposit(
-                InvalidDeposit::IncorrectCount { expected: 0, count: body.deposits.len() },
-            )));
         }
+    } else if !body.deposits.is_empty() {
+        return Err(invalid_operation_error(InvalidOperation::Deposit(
+            InvalidDeposit::IncorrectCount { expected: 0, count: body.deposits.len() },
+        )));
     }
 
     body.proposer_slashings
-- 
2.43.0


From 0cb22e5772be8e1d3c839e7d78f563fa39992543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:53 +0000
Subject: [PATCH 09/26] fix: electra: consume the consolidation churn, not the
 exit churn, for consolidations

---
 ethereum-consensus/src/electra/helpers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/electra/helpers.rs b/ethereum-consensus/src/electra/helpers.rs
index 0574a5f..456a9d5 100644
--- a/ethereum-consensus/src/electra/helpers.rs
+++ b/ethereum-consensus/src/electra/helpers.rs
@@ -628,7 +628,7 @@ pub fn compute_consolidation_epoch_and_update_churn<
     let activation_exit_epoch = compute_activation_exit_epoch(current_epoch, context);
     let mut earliest_consolidation_epoch =
         state.earliest_consolidation_epoch.max(activation_exit_epoch);
-    let per_epoch_churn = get_activation_exit_churn_limit(state, context)?;
+    let per_epoch_churn = get_consolidation_churn_limit(state, context)?;
     let mut consolidation_balance_to_consume =
         if state.earliest_consolidation_epoch < earliest_consolidation_epoch {
             per_epoch_churn
-- 
2.43.0


From d7d3a32725e8594f44e21139ec0e03b2e505be6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:53 +0000
Subject: [PATCH 10/26] fix: electra: make a consolidated validator
 withdrawable after its exit

---
 .../src/electra/block_processing.rs              | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index e35377b..6cacdb9 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -1139,14 +1139,14 @@ pub fn process_consolidation<
     let public_keys = [&source_validator.public_key, &target_validator.public_key];
     fast_aggregate_verify(&public_keys[..], &signing_root[..], &signed_consolidation.signature)?;
 
-    state.validators[consolidation.source_index].exit_epoch =
-        compute_consolidation_epoch_and_update_churn(
-            state,
-            source_validator.effective_balance,
-            context,
-        )?;
-    state.validators[consolidation.source_index].withdrawable_epoch =
-        source_validator.exit_epoch + context.min_validator_withdrawability_delay;
+    let exit_epoch = compute_consolidation_epoch_and_update_churn(
+        state,
+        source_validator.effective_balance,
+        context,
+    )?;
+    let source_validator = &mut state.validators[consolidation.source_index];
+    source_validator.exit_epoch = exit_epoch;
+    source_validator.withdrawable_epoch = exit_epoch + context.min_validator_withdrawability_delay;
     state.pending_consolidations.push(PendingConsolidation {
         source_index: consolidation.source_index,
         target_index: consolidation.target_index,
-- 
2.43.0


From 9cd125eb1530ed6fbc444e1f4ed045f16f240941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:08 +0000
Subject: [PATCH 11/26] fix: electra: a pending partial withdrawal is of the
 validator that requested it

---
 ethereum-consensus/src/electra/block_processing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index 6cacdb9..8312641 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -91,7 +91,7 @@ pub fn get_expected_withdrawals<
             withdrawal_address.copy_from_slice(&validator.withdrawal_credentials[12..]);
             let withdrawal = Withdrawal {
                 index: withdrawal_index,
-                validator_index,
+                validator_index: withdrawal.index,
                 address: withdrawal_address,
                 amount: withdrawable_balance,
             };
-- 
2.43.0


From 735dbbb4d81a592bb58537147a219b8d710cfda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:08 +0000
Subject: [PATCH 12/26] fix: electra: withdraw from validators with exactly the
 minimum effective balance

---
 ethereum-consensus/src/electra/block_processing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index 8312641..22c63fd 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -79,7 +79,7 @@ pub fn get_expected_withdrawals<
         let balance = state.balances[withdrawal.index];
 
         let has_sufficient_effective_balance =
-            validator.effective_balance > context.min_activation_balance;
+            validator.effective_balance >= context.min_activation_balance;
         let has_excess_balance = balance > context.min_activation_balance;
         if validator.exit_epoch == FAR_FUTURE_EPOCH &&
             has_sufficient_effective_balance &&
-- 
2.43.0


From 6c962ba0652f55d667b0dfc6da8b7bf632da9fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:08 +0000
Subject: [PATCH 13/26] fix: electra: continue the withdrawal sweep after the
 last withdrawing validator

---
 ethereum-consensus/src/electra/block_processing.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index 22c63fd..671868b 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -206,8 +206,9 @@ pub fn process_withdrawals<
     }
 
     if expected_withdrawals.len() == context.max_withdrawals_per_payload {
-        let next_validator_index =
-            expected_withdrawals.last().map(|latest| (latest.index + 1) % state.validators.len());
+        let next_validator_index = expected_withdrawals
+            .last()
+            .map(|latest| (latest.validator_index + 1) % state.validators.len());
         state.next_withdrawal_validator_index =
             next_validator_index.unwrap_or(state.next_withdrawal_validator_index);
     } else {
-- 
2.43.0


From 77e5dd88cf11b3b1309970e6e6fba1d0ad7b6b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:10 +0000
Subject: [PATCH 14/26] fix: executor: upgrade through forks of the same epoch
 and from a state already at the fork slot

---
 .../src/state_transition/executor.rs          | 80 ++++++++++++++-----
 1 file changed, 60 insertions(+), 20 deletions(-)

diff --git a/ethereum-consensus/src/state_transition/executor.rs b/ethereum-consensus/src/state_transition/executor.rs
index d23c385..62ee791 100644
--- a/ethereum-consensus/src/state_transition/executor.rs
+++ b/ethereum-consensus/src/state_transition/executor.rs
@@ -210,7 +210,9 @@ impl<
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 let fork_slot = self.context.altair_fork_epoch * self.context.slots_per_epoch;
-                phase0::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    phase0::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = altair::upgrade_to_altair(state, &self.context)?;
                 if signed_block.message.slot == state.slot {
                     altair::state_transition_block_in_slot(
@@ -255,11 +257,15 @@ impl<
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 let fork_slot = self.context.altair_fork_epoch * self.context.slots_per_epoch;
-                phase0::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    phase0::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = altair::upgrade_to_altair(state, &self.context)?;
 
                 let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
-                altair::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    altair::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = bellatrix::upgrade_to_bellatrix(&state, &self.context);
                 if signed_block.message.slot == state.slot {
                     bellatrix::state_transition_block_in_slot(
@@ -281,7 +287,9 @@ impl<
             }
             BeaconState::Altair(state) => {
                 let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
-                altair::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    altair::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = bellatrix::upgrade_to_bellatrix(state, &self.context);
                 if signed_block.message.slot == state.slot {
                     bellatrix::state_transition_block_in_slot(
@@ -333,15 +341,21 @@ impl<
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 let fork_slot = self.context.altair_fork_epoch * self.context.slots_per_epoch;
-                phase0::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    phase0::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = altair::upgrade_to_altair(state, &self.context)?;
 
                 let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
-                altair::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    altair::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = bellatrix::upgrade_to_bellatrix(&state, &self.context);
 
                 let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
-                bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = capella::upgrade_to_capella(&state, &self.context);
 
                 if signed_block.message.slot == state.slot {
@@ -359,11 +373,15 @@ impl<
             }
             BeaconState::Altair(state) => {
                 let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
-                altair::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    altair::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = bellatrix::upgrade_to_bellatrix(state, &self.context);
 
                 let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
-                bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = capella::upgrade_to_capella(&state, &self.context);
 
                 if signed_block.message.slot == state.slot {
@@ -381,7 +399,9 @@ impl<
             }
             BeaconState::Bellatrix(state) => {
                 let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
-                bellatrix::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    bellatrix::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = capella::upgrade_to_capella(state, &self.context);
 
                 if signed_block.message.slot == state.slot {
@@ -430,19 +450,27 @@ impl<
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 let fork_slot = self.context.altair_fork_epoch * self.context.slots_per_epoch;
-                phase0::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    phase0::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = altair::upgrade_to_altair(state, &self.context)?;
 
                 let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
-                altair::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    altair::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = bellatrix::upgrade_to_bellatrix(&state, &self.context);
 
                 let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
-                bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = capella::upgrade_to_capella(&state, &self.context);
 
                 let fork_slot = self.context.deneb_fork_epoch * self.context.slots_per_epoch;
-                capella::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    capella::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = deneb::upgrade_to_deneb(&state, &self.context);
 
                 if signed_block.message.slot == state.slot {
@@ -460,15 +488,21 @@ impl<
             }
             BeaconState::Altair(state) => {
                 let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
-                altair::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    altair::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = bellatrix::upgrade_to_bellatrix(state, &self.context);
 
                 let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
-                bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = capella::upgrade_to_capella(&state, &self.context);
 
                 let fork_slot = self.context.deneb_fork_epoch * self.context.slots_per_epoch;
-                capella::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    capella::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = deneb::upgrade_to_deneb(&state, &self.context);
 
                 if signed_block.message.slot == state.slot {
@@ -486,11 +520,15 @@ impl<
             }
             BeaconState::Bellatrix(state) => {
                 let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
-                bellatrix::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    bellatrix::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = capella::upgrade_to_capella(state, &self.context);
 
                 let fork_slot = self.context.deneb_fork_epoch * self.context.slots_per_epoch;
-                capella::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    capella::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = deneb::upgrade_to_deneb(&state, &self.context);
 
                 if signed_block.message.slot == state.slot {
@@ -508,7 +546,9 @@ impl<
             }
             BeaconState::Capella(state) => {
                 let fork_slot = self.context.deneb_fork_epoch * self.context.slots_per_epoch;
-                capella::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    capella::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = deneb::upgrade_to_deneb(state, &self.context);
 
                 if signed_block.message.slot == state.slot {
-- 
2.43.0


From 78a09f9bd2b7be98b645b16616acd73aac377598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 15/26] fix: electra: no deposit receipt has been seen at
 genesis

---
 ethereum-consensus/src/electra/genesis.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/electra/genesis.rs b/ethereum-consensus/src/electra/genesis.rs
index 4a07578..d368a1c 100644
--- a/ethereum-consensus/src/electra/genesis.rs
+++ b/ethereum-consensus/src/electra/genesis.rs
@@ -2,7 +2,7 @@ use crate::{
     electra::{
         get_next_sync_committee, increase_balance, process_deposit, BeaconBlockBody,
         BeaconBlockHeader, BeaconState, Deposit, DepositData, Eth1Data, ExecutionPayloadHeader,
-        Fork, DEPOSIT_DATA_LIST_BOUND,
+        Fork, DEPOSIT_DATA_LIST_BOUND, UNSET_DEPOSIT_RECEIPTS_START_INDEX,
     },
     primitives::{Gwei, Hash32, GENESIS_EPOCH},
     ssz::prelude::*,
@@ -108,6 +108,7 @@ pub fn initialize_beacon_state_from_eth1<
         latest_block_header,
         randao_mixes,
         latest_execution_payload_header: execution_payload_header,
+        deposit_receipts_start_index: UNSET_DEPOSIT_RECEIPTS_START_INDEX,
         ..Default::default()
     };
 
-- 
2.43.0


From e322a99b389144affc63187249bd9f2fb6311166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 16/26] fix: ec: do not lose the last bytes when the complete
 field elements fill a blob

---
 ethereum-consensus/src/bin/ec/blobs/encode.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ethereum-consensus/src/bin/ec/blobs/encode.rs b/ethereum-consensus/src/bin/ec/blobs/encode.rs
index b56ca21..764d859 100644
--- a/ethereum-consensus/src/bin/ec/blobs/encode.rs
+++ b/ethereum-consensus/src/bin/ec/blobs/encode.rs
@@ -47,6 +47,12 @@ pub fn pack_into_blobs(buffer: &[u8]) -> Result<Vec<Blob>, Error> {
 
     let remainder = chunks.remainder();
     if !remainder.is_empty() {
+        // the complete field elements may have filled the current blob
+        if blob_buffer.len() == BYTES_PER_BLOB {
+            let blob = Blob::try_from(blob_buffer.as_ref()).expect("is the right size");
+            blobs.push(blob);
+            blob_buffer.clear();
+        }
         let mut field_element = field_element_from_bits(remainder)?;
         blob_buffer.append(&mut field_element);
     }
-- 
2.43.0


From 38b3a8ea7d5b63e0a867648ce27d2214d44bbba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 17/26] fix: ec: refuse a frame longer than the stream instead
 of panicking

---
 ethereum-consensus/src/bin/ec/blobs/framing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/bin/ec/blobs/framing.rs b/ethereum-consensus/src/bin/ec/blobs/framing.rs
index a5813ad..d45717b 100644
--- a/ethereum-consensus/src/bin/ec/blobs/framing.rs
+++ b/ethereum-consensus/src/bin/ec/blobs/framing.rs
@@ -37,7 +37,7 @@ pub fn payload_from_sized(stream: &[u8]) -> Result<&[u8], Error> {
         return Err(Error::UnsupportedSizedFramingVersion)
     }
     let size = u32::from_be_bytes(header[1..5].try_into().expect("correct size bytes")) as usize;
-    if size >= stream.len() {
+    if size > payload.len() {
         return Err(Error::InvalidPayloadSize)
     }
 
-- 
2.43.0


From d4db437f5f3e18090f577a4728fb12154fc7ad0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 18/26] fix: quote the numbers of the light client containers,
 SyncAggregatorSelectionData and Eth1Block in JSON

---
 ethereum-consensus/src/altair/light_client.rs  | 3 +++
 ethereum-consensus/src/altair/validator.rs     | 2 ++
 ethereum-consensus/src/capella/light_client.rs | 3 +++
 ethereum-consensus/src/deneb/light_client.rs   | 3 +++
 ethereum-consensus/src/phase0/validator.rs     | 2 ++
 5 files changed, 13 insertions(+)

diff --git a/ethereum-consensus/src/altair/light_client.rs b/ethereum-consensus/src/altair/light_client.rs
index 628e6b7..bdf5cb3 100644
--- a/ethereum-consensus/src/altair/light_client.rs
+++ b/ethereum-consensus/src/altair/light_client.rs
@@ -36,6 +36,7 @@ pub struct LightClientUpdate<const SYNC_COMMITTEE_SIZE: usize> {
     pub finalized_header: LightClientHeader,
     pub finality_branch: Vector<Bytes32, FINALIZED_ROOT_INDEX_FLOOR_LOG_2>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
 
@@ -45,6 +46,7 @@ pub struct LightClientFinalityUpdate<const SYNC_COMMITTEE_SIZE: usize> {
     pub finalized_header: LightClientHeader,
     pub finality_branch: Vector<Bytes32, FINALIZED_ROOT_INDEX_FLOOR_LOG_2>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
 
@@ -52,5 +54,6 @@ pub struct LightClientFinalityUpdate<const SYNC_COMMITTEE_SIZE: usize> {
 pub struct LightClientOptimisticUpdate<const SYNC_COMMITTEE_SIZE: usize> {
     pub attested_header: LightClientHeader,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
diff --git a/ethereum-consensus/src/altair/validator.rs b/ethereum-consensus/src/altair/validator.rs
index 1d4776c..01d954a 100644
--- a/ethereum-consensus/src/altair/validator.rs
+++ b/ethereum-consensus/src/altair/validator.rs
@@ -40,6 +40,8 @@ pub struct SignedContributionAndProof<const SYNC_SUBCOMMITTEE_SIZE: usize> {
 
 #[derive(Debug, Default, Clone, SimpleSerialize, serde::Serialize, serde::Deserialize)]
 pub struct SyncAggregatorSelectionData {
+    #[serde(with = "crate::serde::as_str")]
     pub slot: Slot,
+    #[serde(with = "crate::serde::as_str")]
     pub subcommittee_index: u64,
 }
diff --git a/ethereum-consensus/src/capella/light_client.rs b/ethereum-consensus/src/capella/light_client.rs
index 5596c7d..78fabc2 100644
--- a/ethereum-consensus/src/capella/light_client.rs
+++ b/ethereum-consensus/src/capella/light_client.rs
@@ -43,6 +43,7 @@ pub struct LightClientUpdate<
     pub finalized_header: LightClientHeader<BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>,
     pub finality_branch: Vector<Bytes32, FINALIZED_ROOT_INDEX_FLOOR_LOG_2>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
 
@@ -56,6 +57,7 @@ pub struct LightClientFinalityUpdate<
     pub finalized_header: LightClientHeader<BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>,
     pub finality_branch: Vector<Bytes32, FINALIZED_ROOT_INDEX_FLOOR_LOG_2>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
 
@@ -67,5 +69,6 @@ pub struct LightClientOptimisticUpdate<
 > {
     pub attested_header: LightClientHeader<BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
diff --git a/ethereum-consensus/src/deneb/light_client.rs b/ethereum-consensus/src/deneb/light_client.rs
index b189a46..b598f85 100644
--- a/ethereum-consensus/src/deneb/light_client.rs
+++ b/ethereum-consensus/src/deneb/light_client.rs
@@ -41,6 +41,7 @@ pub struct LightClientUpdate<
     pub finalized_header: LightClientHeader<BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>,
     pub finality_branch: Vector<Bytes32, FINALIZED_ROOT_INDEX_FLOOR_LOG_2>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
 
@@ -54,6 +55,7 @@ pub struct LightClientFinalityUpdate<
     pub finalized_header: LightClientHeader<BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>,
     pub finality_branch: Vector<Bytes32, FINALIZED_ROOT_INDEX_FLOOR_LOG_2>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
 
@@ -65,5 +67,6 @@ pub struct LightClientOptimisticUpdate<
 > {
     pub attested_header: LightClientHeader<BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
diff --git a/ethereum-consensus/src/phase0/validator.rs b/ethereum-consensus/src/phase0/validator.rs
index 616c2c7..7af018f 100644
--- a/ethereum-consensus/src/phase0/validator.rs
+++ b/ethereum-consensus/src/phase0/validator.rs
@@ -27,8 +27,10 @@ pub struct Validator {
 
 #[derive(Default, Debug, SimpleSerialize, Clone, serde::Serialize, serde::Deserialize)]
 pub struct Eth1Block {
+    #[serde(with = "crate::serde::as_str")]
     pub timestamp: u64,
     pub deposit_root: Root,
+    #[serde(with = "crate::serde::as_str")]
     pub deposit_count: u64,
 }
 
-- 
2.43.0


From 87e750f110e12bad99ffb7ea3b47e832f571de0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 19/26] fix: electra: the public key of a withdrawal request is
 called validator_pubkey

---
 ethereum-consensus/src/electra/beacon_state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/electra/beacon_state.rs b/ethereum-consensus/src/electra/beacon_state.rs
index 94e104d..0fe791d 100644
--- a/ethereum-consensus/src/electra/beacon_state.rs
+++ b/ethereum-consensus/src/electra/beacon_state.rs
@@ -61,7 +61,7 @@ pub struct PendingConsolidation {
 )]
 pub struct ExecutionLayerWithdrawalRequest {
     pub source_address: ExecutionAddress,
-    #[serde(rename = "pubkey")]
+    #[serde(rename = "validator_pubkey")]
     pub validator_public_key: BlsPublicKey,
     #[serde(with = "crate::serde::as_str")]
     pub amount: Gwei,
-- 
2.43.0


From 91253922e98525d4c456873bf53d6cf8150799b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 20/26] fix: count the keystore cipher's blocks over the whole
 initialization vector

EIP-2335's aes-128-ctr increments the counter as one 128-bit big-endian
number; with a 64-bit counter the carry into the upper half is lost and a
keystore whose iv ends in all ones cannot be decrypted elsewhere.
---
 ethereum-consensus/src/bin/ec/validator/keystores.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/bin/ec/validator/keystores.rs b/ethereum-consensus/src/bin/ec/validator/keystores.rs
index 20a7f95..20b9f9b 100644
--- a/ethereum-consensus/src/bin/ec/validator/keystores.rs
+++ b/ethereum-consensus/src/bin/ec/validator/keystores.rs
@@ -45,7 +45,7 @@ const KDF_FN: &str = "scrypt";
 const SCRYPT_DKLEN: usize = 32;
 
 const CIPHER_FN: &str = "aes-128-ctr";
-type CtrCipher = ctr::Ctr64BE<aes::Aes128>;
+type CtrCipher = ctr::Ctr128BE<aes::Aes128>;
 const AES_SIZE: usize = 16;
 
 const CHECKSUM_FN: &str = "sha256";
-- 
2.43.0


From 6b0388f06773482b2ba8080780782c0d80f0cf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 21/26] fix: write a keystore's public key without the 0x
 prefix

EIP-2335 has the public key as bare hex, which is what other clients read.
---
 ethereum-consensus/src/bin/ec/validator/keystores.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ethereum-consensus/src/bin/ec/validator/keystores.rs b/ethereum-consensus/src/bin/ec/validator/keystores.rs
index 20b9f9b..e23aba7 100644
--- a/ethereum-consensus/src/bin/ec/validator/keystores.rs
+++ b/ethereum-consensus/src/bin/ec/validator/keystores.rs
@@ -21,6 +21,14 @@ where
     s.collect_str(&encoding)
 }
 
+fn public_key_as_hex<S>(public_key: &BlsPublicKey, s: S) -> Result<S::Ok, S::Error>
+where
+    S: Serializer,
+{
+    let data: &[u8] = public_key.as_ref();
+    as_hex(data, s)
+}
+
 fn empty_string<S, D: AsRef<[u8]>>(_data: D, s: S) -> Result<S::Ok, S::Error>
 where
     S: Serializer,
@@ -181,7 +189,9 @@ impl Crypto {
 #[derive(Debug, Serialize, Deserialize)]
 pub struct Keystore {
     crypto: Crypto,
+    // NOTE: EIP-2335 has the public key without a `0x` prefix
     #[serde(rename = "pubkey")]
+    #[serde(serialize_with = "public_key_as_hex")]
     public_key: BlsPublicKey,
     path: Path,
     uuid: Uuid,
-- 
2.43.0


From 77f5a30e9fe23f3d76f89b481551797dfbf558c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:09 +0000
Subject: [PATCH 22/26] fix: api-client: the node answers a RANDAO request with
 an object

---
 beacon-api-client/src/api_client.rs | 10 +++++-----
 beacon-api-client/src/types.rs      |  9 +++++++--
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/beacon-api-client/src/api_client.rs b/beacon-api-client/src/api_client.rs
index c0ed9d5..7ee1bcf 100644
--- a/beacon-api-client/src/api_client.rs
+++ b/beacon-api-client/src/api_client.rs
@@ -5,9 +5,9 @@ use crate::{
         CommitteeFilter, CommitteeSummary, ConnectionOrientation, CoordinateWithMetadata,
         DepositContract, DepositSnapshot, FinalityCheckpoints, GenesisDetails, HealthStatus,
         NetworkIdentity, PeerDescription, PeerState, PeerSummary, ProposerDuty, PublicKeyOrIndex,
-        RootData, StateId, SubmitSignedBeaconBlock, SyncCommitteeDescriptor, SyncCommitteeDuty,
-        SyncCommitteeSummary, SyncStatus, Topic, ValidatorLiveness, ValidatorStatus,
-        ValidatorSummary, Value, VersionData, VersionedValue,
+        RandaoData, RootData, StateId, SubmitSignedBeaconBlock, SyncCommitteeDescriptor,
+        SyncCommitteeDuty, SyncCommitteeSummary, SyncStatus, Topic, ValidatorLiveness,
+        ValidatorStatus, ValidatorSummary, Value, VersionData, VersionedValue,
     },
     ApiError, Error,
 };
@@ -269,9 +269,9 @@ impl<C: ClientTypes> Client<C> {
         }
         let response = request.send().await?;
 
-        let result: ApiResult<Value<Bytes32>> = response.json().await?;
+        let result: ApiResult<Value<RandaoData>> = response.json().await?;
         match result {
-            ApiResult::Ok(result) => Ok(result.data),
+            ApiResult::Ok(result) => Ok(result.data.randao),
             ApiResult::Err(err) => Err(err.into()),
         }
     }
diff --git a/beacon-api-client/src/types.rs b/beacon-api-client/src/types.rs
index ee59120..9366989 100644
--- a/beacon-api-client/src/types.rs
+++ b/beacon-api-client/src/types.rs
@@ -6,8 +6,8 @@ use ethereum_consensus::{
     networking::{Enr, Multiaddr, PeerId},
     phase0::{Checkpoint, SignedBeaconBlockHeader, Validator},
     primitives::{
-        BlsPublicKey, ChainId, CommitteeIndex, Coordinate, Epoch, ExecutionAddress, Gwei, Hash32,
-        Root, Slot, ValidatorIndex, Version,
+        BlsPublicKey, Bytes32, ChainId, CommitteeIndex, Coordinate, Epoch, ExecutionAddress, Gwei,
+        Hash32, Root, Slot, ValidatorIndex, Version,
     },
     serde::try_bytes_from_hex_str,
     Fork,
@@ -110,6 +110,11 @@ pub struct RootData {
     pub root: Root,
 }
 
+#[derive(Serialize, Deserialize)]
+pub struct RandaoData {
+    pub randao: Bytes32,
+}
+
 #[derive(Serialize, Deserialize, Clone, Debug)]
 pub enum BlockId {
     Head,
-- 
2.43.0


From 2cd428c6d21c13a378eb6beb8b241423f132bdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:09 +0000
Subject: [PATCH 23/26] fix: api-client: ask for blob sidecars by a comma
 separated list of indices

---
 beacon-api-client/src/api_client.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beacon-api-client/src/api_client.rs b/beacon-api-client/src/api_client.rs
index 7ee1bcf..3ee7846 100644
--- a/beacon-api-client/src/api_client.rs
+++ b/beacon-api-client/src/api_client.rs
@@ -401,6 +401,7 @@ impl<C: ClientTypes> Client<C> {
         let target = self.endpoint.join(&path)?;
         let mut request = self.http.get(target);
         if !indices.is_empty() {
+            let indices = indices.iter().join(",");
             request = request.query(&[("indices", indices)]);
         }
         let response = request.send().await?;
-- 
2.43.0


From ac6a98168b59ab4a04409e2c766540db3576d307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:09 +0000
Subject: [PATCH 24/26] fix: api-client: light client updates come as a list of
 versioned values

---
 beacon-api-client/src/api_client.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beacon-api-client/src/api_client.rs b/beacon-api-client/src/api_client.rs
index 3ee7846..05da34c 100644
--- a/beacon-api-client/src/api_client.rs
+++ b/beacon-api-client/src/api_client.rs
@@ -445,9 +445,9 @@ impl<C: ClientTypes> Client<C> {
         request = request.query(&[("start_period", start), ("count", count)]);
 
         let response = request.send().await?;
-        let result: ApiResult<Value<_>> = response.json().await?;
+        let result: ApiResult<Vec<VersionedValue<C::LightClientUpdate>>> = response.json().await?;
         match result {
-            ApiResult::Ok(result) => Ok(result.data),
+            ApiResult::Ok(result) => Ok(result.into_iter().map(|update| update.data).collect()),
             ApiResult::Err(err) => Err(err.into()),
         }
     }
-- 
2.43.0


From eb79cfcb4172b76940cf4063979ddd505be36587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:09 +0000
Subject: [PATCH 25/26] fix: api-client: post the validator indices of a
 liveness request as strings

---
 beacon-api-client/src/api_client.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beacon-api-client/src/api_client.rs b/beacon-api-client/src/api_client.rs
index 05da34c..fd64769 100644
--- a/beacon-api-client/src/api_client.rs
+++ b/beacon-api-client/src/api_client.rs
@@ -867,8 +867,9 @@ impl<C: ClientTypes> Client<C> {
         epoch: Epoch,
         indices: &[ValidatorIndex],
     ) -> Result<Vec<ValidatorLiveness>, Error> {
+        let indices = indices.iter().map(|index| index.to_string()).collect::<Vec<_>>();
         let response =
-            self.http_post(&format!("eth/v1/validator/liveness/{epoch}"), indices).await?;
+            self.http_post(&format!("eth/v1/validator/liveness/{epoch}"), &indices).await?;
         let result: ApiResult<Value<_>> = response.json().await?;
         match result {
             ApiResult::Ok(result) => Ok(result.data),
-- 
2.43.0


From d339da0cad0208568d249c3f643aa861846a0e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:09 +0000
Subject: [PATCH 26/26] fix: api-client: keep the path of the endpoint when
 asking for a peer or for events

---
 beacon-api-client/src/api_client.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beacon-api-client/src/api_client.rs b/beacon-api-client/src/api_client.rs
index fd64769..dc2d633 100644
--- a/beacon-api-client/src/api_client.rs
+++ b/beacon-api-client/src/api_client.rs
@@ -610,7 +610,7 @@ impl<C: ClientTypes> Client<C> {
     /* events namespace */
     pub async fn get_events<T: Topic>(&self) -> Result<EventStream<T::Data>, Error> {
         let name = T::NAME;
-        let path = format!("/eth/v1/events?topics={name}");
+        let path = format!("eth/v1/events?topics={name}");
         let target = self.endpoint.join(&path)?.to_string();
 
         let client = EventClient::default();
@@ -647,7 +647,7 @@ impl<C: ClientTypes> Client<C> {
 
     pub async fn get_peer(&self, peer_id: PeerId) -> Result<PeerDescription, Error> {
         let result: Value<PeerDescription> =
-            self.get(&format!("/eth/v1/node/peers/{peer_id}")).await?;
+            self.get(&format!("eth/v1/node/peers/{peer_id}")).await?;
         Ok(result.data)
     }
 
-- 
2.43.0

