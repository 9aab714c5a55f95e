From 80b090838eac41709d3a314d34f2f1f1a780f2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 01/49] fix: normalize filter encodings for every added and
 queried program filter

Only the first filter added for a program was converted to bytes, so the same
condition written in Base58 or Base64 was not found by contains_filter.
---
 common/src/simple_filter_store.rs | 51 +++++++++++++++----------------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/common/src/simple_filter_store.rs b/common/src/simple_filter_store.rs
index 5f4a7b3..dd7f7e5 100644
--- a/common/src/simple_filter_store.rs
+++ b/common/src/simple_filter_store.rs
@@ -1,6 +1,8 @@
 use crate::{
     account_data::AccountData,
-    account_filter::{AccountFilter, AccountFilterType, AccountFilters, MemcmpFilter},
+    account_filter::{
+        AccountFilter, AccountFilterType, AccountFilters, MemcmpFilter, MemcmpFilterData,
+    },
 };
 use solana_sdk::pubkey::Pubkey;
 use std::collections::{BTreeSet, HashMap, HashSet};
@@ -17,6 +19,20 @@ enum ProgramIdFilters {
     ByFilterType(Vec<BTreeSet<AccountFilterType>>),
 }
 
+// always save and compare filters in bytes
+fn normalize_filters(filters: &[AccountFilterType]) -> BTreeSet<AccountFilterType> {
+    filters
+        .iter()
+        .map(|filter| match filter {
+            AccountFilterType::Datasize(_) => filter.clone(),
+            AccountFilterType::Memcmp(memcmp) => AccountFilterType::Memcmp(MemcmpFilter {
+                offset: memcmp.offset,
+                data: MemcmpFilterData::Bytes(memcmp.bytes()),
+            }),
+        })
+        .collect()
+}
+
 #[derive(Default)]
 pub struct SimpleFilterStore {
     accounts: HashSet<Pubkey>,
@@ -44,7 +60,7 @@ impl SimpleFilterStore {
                         }
                         ProgramIdFilters::ByFilterType(current_filters) => {
                             if let Some(new_filters) = &account_filter.filters {
-                                current_filters.push(new_filters.iter().cloned().collect());
+                                current_filters.push(normalize_filters(new_filters));
                             } else {
                                 // the new filters will subscribe to all the filters
                                 *program_filters = ProgramIdFilters::AllowAll;
@@ -55,28 +71,12 @@ impl SimpleFilterStore {
                 None => {
                     self.program_id_filters.insert(
                         *program_id,
-                        account_filter
-                            .filters
-                            .clone()
-                            .map_or(ProgramIdFilters::AllowAll, |filters| {
-                                // always save filters in bytes
-                                let filters = filters.iter().map(|x| match &x {
-                                    AccountFilterType::Datasize(_) => x.clone(),
-                                    AccountFilterType::Memcmp(memcmp) => {
-                                        match memcmp.data {
-                                            crate::account_filter::MemcmpFilterData::Bytes(_) => x.clone(),
-                                            crate::account_filter::MemcmpFilterData::Base58(_) |
-                                            crate::account_filter::MemcmpFilterData::Base64(_) => {
-                                                AccountFilterType::Memcmp(MemcmpFilter {
-                                                    offset: memcmp.offset,
-                                                    data: crate::account_filter::MemcmpFilterData::Bytes(memcmp.bytes())
-                                                })
-                                            },
-                                        }
-                                    },
-                                }).collect();
-                                ProgramIdFilters::ByFilterType(vec![filters])
-                            }),
+                        account_filter.filters.clone().map_or(
+                            ProgramIdFilters::AllowAll,
+                            |filters| {
+                                ProgramIdFilters::ByFilterType(vec![normalize_filters(&filters)])
+                            },
+                        ),
                     );
                 }
             }
@@ -101,8 +101,7 @@ impl SimpleFilterStore {
                         ProgramIdFilters::ByFilterType(filter_list) => {
                             if let Some(filter_to_match) = &account_filter.filters {
                                 // matches sorted filter list
-                                let filter_to_match: BTreeSet<AccountFilterType> =
-                                    filter_to_match.iter().cloned().collect();
+                                let filter_to_match = normalize_filters(filter_to_match);
                                 filter_list.iter().any(|stored_filters| {
                                     if filter_to_match.len() >= stored_filters.len() {
                                         let subset = filter_to_match
-- 
2.43.0


From cfc81cc29e94f4e338a2b198c4cdb27710912d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 02/49] fix: a stored program filter covers every request that
 contains its conditions

contains_filter compared the stored conditions with the first conditions of the
sorted request, so a narrower request whose extra condition sorts first was
reported as not covered.
---
 common/src/simple_filter_store.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/common/src/simple_filter_store.rs b/common/src/simple_filter_store.rs
index dd7f7e5..a797019 100644
--- a/common/src/simple_filter_store.rs
+++ b/common/src/simple_filter_store.rs
@@ -100,19 +100,10 @@ impl SimpleFilterStore {
                         ProgramIdFilters::AllowAll => true,
                         ProgramIdFilters::ByFilterType(filter_list) => {
                             if let Some(filter_to_match) = &account_filter.filters {
-                                // matches sorted filter list
+                                // all the stored conditions should be a part of the requested conditions
                                 let filter_to_match = normalize_filters(filter_to_match);
                                 filter_list.iter().any(|stored_filters| {
-                                    if filter_to_match.len() >= stored_filters.len() {
-                                        let subset = filter_to_match
-                                            .iter()
-                                            .take(stored_filters.len())
-                                            .cloned()
-                                            .collect::<BTreeSet<_>>();
-                                        subset == *stored_filters
-                                    } else {
-                                        false
-                                    }
+                                    stored_filters.is_subset(&filter_to_match)
                                 })
                             } else {
                                 false
-- 
2.43.0


From ccf63307720817f5cbbb070ec229585c6463f32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:03 +0000
Subject: [PATCH 03/49] fix: report malformed account filter configuration as
 an error

Deserializing an AccountFilter panicked on anything unexpected, including
"programId": null.
---
 common/src/account_filter.rs | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/common/src/account_filter.rs b/common/src/account_filter.rs
index 9f07602..db194a1 100644
--- a/common/src/account_filter.rs
+++ b/common/src/account_filter.rs
@@ -1,6 +1,6 @@
 use base64::Engine;
 use itertools::Itertools;
-use serde::{ser::SerializeMap, Deserialize, Serialize};
+use serde::{de::Error, ser::SerializeMap, Deserialize, Serialize};
 use solana_rpc_client_api::filter::{Memcmp as RpcMemcmp, MemcmpEncodedBytes, RpcFilterType};
 use solana_sdk::pubkey::Pubkey;
 use std::str::FromStr;
@@ -110,28 +110,27 @@ impl<'de> Deserialize<'de> for AccountFilter {
     {
         let json: serde_json::value::Value = serde_json::value::Value::deserialize(deserializer)?;
 
+        let parse_pubkey = |value: &serde_json::value::Value| {
+            let text = value
+                .as_str()
+                .ok_or_else(|| D::Error::custom("pubkey should be a string"))?;
+            Pubkey::from_str(text).map_err(D::Error::custom)
+        };
+
         let accounts = match json.get("accounts") {
             Some(accounts) => match accounts.as_array() {
-                Some(accounts_array) => accounts_array
-                    .iter()
-                    .map(|v| {
-                        Pubkey::from_str(v.as_str().expect("should be string"))
-                            .expect("Pubkey should be valid")
-                    })
-                    .collect_vec(),
+                Some(accounts_array) => accounts_array.iter().map(parse_pubkey).try_collect()?,
                 None => vec![],
             },
             None => vec![],
         };
-        let program_id = json.get("programId").map(|program_id| {
-            Pubkey::from_str(program_id.as_str().expect("should be string"))
-                .expect("Pubkey should be valid")
-        });
+        let program_id = match json.get("programId") {
+            Some(program_id) if !program_id.is_null() => Some(parse_pubkey(program_id)?),
+            _ => None,
+        };
 
         let filters = match json.get("filters") {
-            Some(filters) => {
-                serde_json::from_value(filters.clone()).expect("account filters not deserializable")
-            }
+            Some(filters) => serde_json::from_value(filters.clone()).map_err(D::Error::custom)?,
             None => None,
         };
         Ok(Self {
-- 
2.43.0


From 6753175bcd6ba87066de187eba38594add7c7a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:03 +0000
Subject: [PATCH 04/49] fix: an except store covers exactly the requests it
 excludes nothing of

contains_filter negated the coverage test of the inner store, so a request which
was only partly excluded, e.g. a whole program with one excluded condition, was
reported as covered.
---
 common/src/except_filter_store.rs |  2 +-
 common/src/simple_filter_store.rs | 12 ++++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/common/src/except_filter_store.rs b/common/src/except_filter_store.rs
index 9de0da8..cca7cab 100644
--- a/common/src/except_filter_store.rs
+++ b/common/src/except_filter_store.rs
@@ -24,7 +24,7 @@ impl AccountFiltersStoreInterface for ExceptFilterStore {
     }
 
     fn contains_filter(&self, filter: &AccountFilter) -> bool {
-        !self.simple_filter_store.contains_filter_internal(filter)
+        !self.simple_filter_store.intersects_filter(filter)
     }
 }
 
diff --git a/common/src/simple_filter_store.rs b/common/src/simple_filter_store.rs
index a797019..a6a5b1f 100644
--- a/common/src/simple_filter_store.rs
+++ b/common/src/simple_filter_store.rs
@@ -120,6 +120,18 @@ impl SimpleFilterStore {
         accounts_match && program_filter_match
     }
 
+    // true if some account selected by the filter could be satisfied by the store
+    pub fn intersects_filter(&self, account_filter: &AccountFilter) -> bool {
+        account_filter
+            .accounts
+            .iter()
+            .any(|pk| self.accounts.contains(pk))
+            || account_filter
+                .program_id
+                .as_ref()
+                .is_some_and(|program_id| self.program_id_filters.contains_key(program_id))
+    }
+
     pub fn satisfies_filter(&self, account: &AccountData) -> bool {
         if self.accounts.contains(&account.pubkey) {
             return true;
-- 
2.43.0


From 0f7bc10017ceef39174da39c0ba4d4d1fd425edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 05/49] fix: the commitment of a slot comes from slot
 notifications only

A slot first seen through a confirmed account update was taken as already
confirmed, so its confirmation did not promote its ancestors, and a confirmed
update in a slot known as processed was stored as processed only.
---
 account_storage/src/inmemory_account_store.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 04b7f74..2962017 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -120,7 +120,7 @@ impl InmemoryAccountStore {
                 lk.insert(
                     slot,
                     SlotStatus {
-                        commitment,
+                        commitment: Commitment::Processed,
                         accounts_updated: BTreeSet::new(),
                         parent: None,
                     },
@@ -132,7 +132,7 @@ impl InmemoryAccountStore {
             Commitment::Processed | Commitment::Confirmed => {
                 // insert account into slot status
                 slot_status.accounts_updated.insert(account_index);
-                slot_status.commitment
+                std::cmp::max(slot_status.commitment, commitment)
             }
             Commitment::Finalized => commitment,
         }
-- 
2.43.0


From 72a0ced2d4a9db65edd04c3b0adafe60cc15cbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 06/49] fix: a new account in an already confirmed slot is
 confirmed

The first update of an account ignored the commitment its slot had reached, so
it never became visible at that commitment.
---
 account_storage/src/inmemory_account_store.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 2962017..0932527 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -245,14 +245,16 @@ impl AccountStorageInterface for InmemoryAccountStore {
                 if self.satisfies_filters(&account_data) {
                     ACCOUNT_STORED_IN_MEMORY.inc();
                     let mut lk = self.accounts_store.write().unwrap();
+                    let index = lk.len();
+                    // the slot may already be confirmed
+                    let commitment =
+                        self.add_account_index_to_slot_status(updated_slot, index, commitment);
                     lk.push(RwLock::new(AccountDataByCommitment::new(
                         account_data.clone(),
                         commitment,
                     )));
-                    let index = lk.len() - 1;
                     drop(lk);
                     self.add_account_owner(index, account_data.account.owner);
-                    self.add_account_index_to_slot_status(updated_slot, index, commitment);
                     vac.insert(index);
                     true
                 } else {
-- 
2.43.0


From cd093e4c5bfea566546bdd7920b65a4fdde54710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 07/49] fix: promoting a slot replaces an older write version
 of the same slot

Only slots were compared, so a confirmed or finalized read kept an older write
version when a later one of the same slot was promoted.
---
 account_storage/src/account_data_by_commitment.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/account_storage/src/account_data_by_commitment.rs b/account_storage/src/account_data_by_commitment.rs
index 5d88493..44aff43 100644
--- a/account_storage/src/account_data_by_commitment.rs
+++ b/account_storage/src/account_data_by_commitment.rs
@@ -7,6 +7,12 @@ use lite_account_manager_common::{
 };
 use solana_sdk::clock::Slot;
 
+// the same slot can contain multiple updates for the same account
+fn is_newer(account_data: &AccountData, other: &AccountData) -> bool {
+    (account_data.updated_slot, account_data.write_version)
+        > (other.updated_slot, other.write_version)
+}
+
 #[derive(Default)]
 pub struct AccountDataByCommitment {
     // should have maximum 32 entries, all processed slots which are not yet finalized
@@ -199,7 +205,7 @@ impl AccountDataByCommitment {
                 }
                 Commitment::Confirmed => match self.confirmed_account.take() {
                     Some(prev_account_data) => {
-                        if prev_account_data.updated_slot < account_data.updated_slot {
+                        if is_newer(account_data, &prev_account_data) {
                             self.confirmed_account = Some(account_data.clone());
                             Some((account_data.clone(), Some(prev_account_data)))
                         } else {
@@ -216,7 +222,7 @@ impl AccountDataByCommitment {
                     // update confirmed if needed
                     match &self.confirmed_account {
                         Some(confirmed_account) => {
-                            if confirmed_account.updated_slot < account_data.updated_slot {
+                            if is_newer(account_data, confirmed_account) {
                                 self.confirmed_account = Some(account_data.clone());
                             }
                         }
@@ -227,7 +233,7 @@ impl AccountDataByCommitment {
 
                     let result = match self.finalized_account.take() {
                         Some(prev_account_data) => {
-                            if prev_account_data.updated_slot < account_data.updated_slot {
+                            if is_newer(account_data, &prev_account_data) {
                                 self.finalized_account = Some(account_data.clone());
                                 Some((account_data.clone(), Some(prev_account_data)))
                             } else {
-- 
2.43.0


From 294c904a46544a7d0831e50089ac9250f06ba4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 08/49] fix: keep the right parent and commitment of a slot

The parent of a slot first seen through an account update was never recorded, an
unknown ancestor got the parent of the notified slot, and a late notification
moved a slot back to a lower commitment.
---
 account_storage/src/inmemory_account_store.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 0932527..3e7a1d4 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -358,14 +358,14 @@ impl AccountStorageInterface for InmemoryAccountStore {
                 current_slot = None;
                 match lk.get_mut(&slot) {
                     Some(status) => {
-                        if status.commitment == commitment {
+                        if parent.is_some() {
+                            status.parent = parent;
+                        }
+                        if status.commitment >= commitment {
                             // slot already processed for the commitment
                             break;
                         }
                         status.commitment = commitment;
-                        if parent.is_some() {
-                            status.parent = parent;
-                        }
                         for account in &status.accounts_updated {
                             match writable_accounts.entry(*account) {
                                 std::collections::hash_map::Entry::Occupied(_) => {
@@ -402,7 +402,7 @@ impl AccountStorageInterface for InmemoryAccountStore {
                             let status = SlotStatus {
                                 commitment,
                                 accounts_updated: BTreeSet::new(),
-                                parent: Some(slot_info.parent),
+                                parent,
                             };
                             lk.insert(slot, status);
                         }
-- 
2.43.0


From b538433c3b37c92dce4f15b9065b4782d1f70f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 09/49] fix: program accounts without filters do not contain
 deleted accounts

---
 account_storage/src/inmemory_account_store.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 3e7a1d4..893ffec 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -192,7 +192,9 @@ impl InmemoryAccountStore {
                 let account_data = lk_on_account.get_account_data(commitment);
                 if let Some(account_data) = account_data {
                     // recheck owner
-                    if program_pubkey == account_data.account.owner {
+                    if account_data.account.lamports > 0
+                        && program_pubkey == account_data.account.owner
+                    {
                         return_vec.push(account_data);
                     }
                 }
-- 
2.43.0


From a1806974514920a2658ac116fbea76d0e5e0e2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:37 +0000
Subject: [PATCH 10/49] fix: deletion and owner change lifecycle of an account

Finalizing a deletion or an owner change dropped more recent states of the same
account, finalizing a deletion which kept the owner removed nothing, and an
account whose first confirmed or finalized state has a new owner was missing
from the accounts of that owner.
---
 .../src/account_data_by_commitment.rs         |  9 ++
 account_storage/src/inmemory_account_store.rs | 85 +++++++++++--------
 2 files changed, 60 insertions(+), 34 deletions(-)

diff --git a/account_storage/src/account_data_by_commitment.rs b/account_storage/src/account_data_by_commitment.rs
index 44aff43..dabdb9b 100644
--- a/account_storage/src/account_data_by_commitment.rs
+++ b/account_storage/src/account_data_by_commitment.rs
@@ -281,6 +281,15 @@ impl AccountDataByCommitment {
         }
     }
 
+    // states of the account which are more recent than the finalized one
+    pub fn pending_accounts(&self) -> impl Iterator<Item = &AccountData> {
+        let finalized_account = self.finalized_account.as_ref();
+        self.processed_accounts
+            .values()
+            .chain(self.confirmed_account.iter())
+            .filter(move |x| finalized_account.map_or(true, |finalized| is_newer(x, finalized)))
+    }
+
     pub fn delete(&mut self) {
         self.processed_accounts.clear();
         self.confirmed_account = None;
diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 893ffec..d4324ca 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -77,24 +77,38 @@ impl InmemoryAccountStore {
         new_account_data: &AccountData,
         account_index: AccountIndex,
         commitment: Commitment,
+        account_by_commitment: &AccountDataByCommitment,
     ) -> bool {
         assert_eq!(prev_account_data.pubkey, new_account_data.pubkey);
-        if prev_account_data.account.owner != new_account_data.account.owner {
+        if prev_account_data.account.owner != new_account_data.account.owner
+            || Self::is_deleted(new_account_data)
+        {
             if commitment == Commitment::Finalized {
-                match self
-                    .accounts_by_owner
-                    .entry(prev_account_data.account.owner)
+                // a more recent state, not finalized yet, could still belong to the previous owner
+                if !account_by_commitment
+                    .pending_accounts()
+                    .any(|x| x.account.owner == prev_account_data.account.owner)
                 {
-                    dashmap::mapref::entry::Entry::Occupied(mut occ) => {
-                        occ.get_mut().write().unwrap().remove(&account_index);
-                    }
-                    dashmap::mapref::entry::Entry::Vacant(_) => {
-                        // do nothing
+                    match self
+                        .accounts_by_owner
+                        .entry(prev_account_data.account.owner)
+                    {
+                        dashmap::mapref::entry::Entry::Occupied(mut occ) => {
+                            occ.get_mut().write().unwrap().remove(&account_index);
+                        }
+                        dashmap::mapref::entry::Entry::Vacant(_) => {
+                            // do nothing
+                        }
                     }
                 }
 
                 // account is deleted or if new does not satisfies the filter criterias
-                if Self::is_deleted(new_account_data) || !self.satisfies_filters(new_account_data) {
+                // but do not lose an account which has been created again
+                if (Self::is_deleted(new_account_data) || !self.satisfies_filters(new_account_data))
+                    && !account_by_commitment
+                        .pending_accounts()
+                        .any(|x| !Self::is_deleted(x) && self.satisfies_filters(x))
+                {
                     return true;
                 }
             }
@@ -227,16 +241,19 @@ impl AccountStorageInterface for InmemoryAccountStore {
                 let prev_account = acc_by_commitment.get_account_data(commitment);
                 // if account has been updated
                 if acc_by_commitment.update(account_data.clone(), commitment) {
-                    if let Some(prev_account) = prev_account {
-                        if self.update_owner_delete_if_necessary(
-                            &prev_account,
-                            &account_data,
-                            index,
-                            commitment,
-                        ) {
-                            acc_by_commitment.delete();
-                            occ.remove_entry();
-                        }
+                    if prev_account.is_none() && self.satisfies_filters(&account_data) {
+                        // first state of the account for the commitment
+                        self.add_account_owner(index, account_data.account.owner);
+                    }
+                    if self.update_owner_delete_if_necessary(
+                        prev_account.as_ref().unwrap_or(&account_data),
+                        &account_data,
+                        index,
+                        commitment,
+                        &acc_by_commitment,
+                    ) {
+                        acc_by_commitment.delete();
+                        occ.remove_entry();
                     }
                     true
                 } else {
@@ -436,20 +453,20 @@ impl AccountStorageInterface for InmemoryAccountStore {
             if let Some((account_data, prev_account_data)) =
                 writable_lk.promote_slot_commitment(update_slot, commitment)
             {
-                if let Some(prev_account_data) = prev_account_data {
-                    // check if owner has changed
-                    if (prev_account_data.account.owner != account_data.account.owner
-                        || account_data.account.lamports == 0)
-                        && self.update_owner_delete_if_necessary(
-                            &prev_account_data,
-                            &account_data,
-                            writable_account_index,
-                            commitment,
-                        )
-                    {
-                        self.pubkey_to_account_index.remove(&account_data.pubkey);
-                        writable_lk.delete();
-                    }
+                let prev_account_data = prev_account_data.unwrap_or_else(|| account_data.clone());
+                // check if owner has changed
+                if (prev_account_data.account.owner != account_data.account.owner
+                    || account_data.account.lamports == 0)
+                    && self.update_owner_delete_if_necessary(
+                        &prev_account_data,
+                        &account_data,
+                        writable_account_index,
+                        commitment,
+                        &writable_lk,
+                    )
+                {
+                    self.pubkey_to_account_index.remove(&account_data.pubkey);
+                    writable_lk.delete();
                 }
                 // account has been confirmed first time
                 updated_accounts.push(account_data);
-- 
2.43.0


From c59720f5eff0c8bd1c29f933249e959d5e55c242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:37 +0000
Subject: [PATCH 11/49] fix: deadlock between an account update and the
 finalization of a deletion

update_account locks the pubkey index and then the accounts, process_slot_data
removed from the pubkey index while it had the accounts locked.
---
 account_storage/src/account_data_by_commitment.rs |  6 ++++++
 account_storage/src/inmemory_account_store.rs     | 14 +++++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/account_storage/src/account_data_by_commitment.rs b/account_storage/src/account_data_by_commitment.rs
index dabdb9b..22c0cba 100644
--- a/account_storage/src/account_data_by_commitment.rs
+++ b/account_storage/src/account_data_by_commitment.rs
@@ -290,6 +290,12 @@ impl AccountDataByCommitment {
             .filter(move |x| finalized_account.map_or(true, |finalized| is_newer(x, finalized)))
     }
 
+    pub fn is_empty(&self) -> bool {
+        self.processed_accounts.is_empty()
+            && self.confirmed_account.is_none()
+            && self.finalized_account.is_none()
+    }
+
     pub fn delete(&mut self) {
         self.processed_accounts.clear();
         self.confirmed_account = None;
diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index d4324ca..67a9266 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -446,6 +446,7 @@ impl AccountStorageInterface for InmemoryAccountStore {
         };
 
         let mut updated_accounts = vec![];
+        let mut deleted_accounts = vec![];
 
         let lk = self.accounts_store.read().unwrap();
         for (writable_account_index, update_slot) in writable_accounts {
@@ -465,13 +466,24 @@ impl AccountStorageInterface for InmemoryAccountStore {
                         &writable_lk,
                     )
                 {
-                    self.pubkey_to_account_index.remove(&account_data.pubkey);
                     writable_lk.delete();
+                    deleted_accounts.push((account_data.pubkey, writable_account_index));
                 }
                 // account has been confirmed first time
                 updated_accounts.push(account_data);
             }
         }
+        drop(lk);
+        // update_account locks the index before the account, so no account can be locked here
+        for (pubkey, account_index) in deleted_accounts {
+            self.pubkey_to_account_index.remove_if(&pubkey, |_, index| {
+                *index == account_index
+                    && self.accounts_store.read().unwrap()[account_index]
+                        .read()
+                        .unwrap()
+                        .is_empty()
+            });
+        }
         updated_accounts
     }
 
-- 
2.43.0


From 3c6612d07bb49db8109f70ea7bd76a2e450ff830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:38 +0000
Subject: [PATCH 12/49] fix: do not lose the confirmation of a slot during an
 account update

The commitment of the slot was read before the account was locked, a slot
confirmed in between was never applied to the update.
---
 account_storage/src/inmemory_account_store.rs | 26 +++----------------
 1 file changed, 4 insertions(+), 22 deletions(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 67a9266..eb417c7 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -152,25 +152,6 @@ impl InmemoryAccountStore {
         }
     }
 
-    fn maybe_update_slot_status(
-        &self,
-        account_data: &AccountData,
-        commitment: Commitment,
-    ) -> Commitment {
-        let account_index = match self
-            .pubkey_to_account_index
-            .get(&account_data.pubkey)
-            .map(|x| *x)
-        {
-            Some(x) => x,
-            None => {
-                return commitment;
-            }
-        };
-        let slot = account_data.updated_slot;
-        self.add_account_index_to_slot_status(slot, account_index, commitment)
-    }
-
     pub fn satisfies_filters(&self, account: &AccountData) -> bool {
         self.filtered_accounts.satisfies(account)
     }
@@ -230,14 +211,15 @@ impl AccountStorageInterface for InmemoryAccountStore {
         }
         let updated_slot = account_data.updated_slot;
 
-        // check if the blockhash and slot is already confirmed
-        let commitment = self.maybe_update_slot_status(&account_data, commitment);
-
         let updated = match self.pubkey_to_account_index.entry(account_data.pubkey) {
             dashmap::mapref::entry::Entry::Occupied(occ) => {
                 let index = *occ.get();
                 let read_lk = self.accounts_store.read().unwrap();
                 let mut acc_by_commitment = read_lk[index].write().unwrap();
+                // check if the slot is already confirmed, while the account is locked so that
+                // a concurrent confirmation of the slot will find the update
+                let commitment =
+                    self.add_account_index_to_slot_status(updated_slot, index, commitment);
                 let prev_account = acc_by_commitment.get_account_data(commitment);
                 // if account has been updated
                 if acc_by_commitment.update(account_data.clone(), commitment) {
-- 
2.43.0


From 8caf2eb9bf8592b58cc42a4e813a9b04e98ff6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:25 +0000
Subject: [PATCH 13/49] fix: an outdated finalized update does not remove the
 account

An update older than the finalized state, e.g. from an old snapshot, with another
owner removed the account from its current owner, or from the store.
---
 account_storage/src/inmemory_account_store.rs | 25 +++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index eb417c7..060592d 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -227,13 +227,24 @@ impl AccountStorageInterface for InmemoryAccountStore {
                         // first state of the account for the commitment
                         self.add_account_owner(index, account_data.account.owner);
                     }
-                    if self.update_owner_delete_if_necessary(
-                        prev_account.as_ref().unwrap_or(&account_data),
-                        &account_data,
-                        index,
-                        commitment,
-                        &acc_by_commitment,
-                    ) {
+                    // an update older than the finalized state does not change anything
+                    let is_outdated =
+                        acc_by_commitment
+                            .finalized_account
+                            .as_ref()
+                            .is_some_and(|finalized| {
+                                (finalized.updated_slot, finalized.write_version)
+                                    > (account_data.updated_slot, account_data.write_version)
+                            });
+                    if !is_outdated
+                        && self.update_owner_delete_if_necessary(
+                            prev_account.as_ref().unwrap_or(&account_data),
+                            &account_data,
+                            index,
+                            commitment,
+                            &acc_by_commitment,
+                        )
+                    {
                         acc_by_commitment.delete();
                         occ.remove_entry();
                     }
-- 
2.43.0


From de9109c8003975795f701d7e438cef2ebe9a3d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:54 +0000
Subject: [PATCH 14/49] fix: index an account created again by the owner of its
 deleted state

---
 account_storage/src/inmemory_account_store.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/account_storage/src/inmemory_account_store.rs b/account_storage/src/inmemory_account_store.rs
index 060592d..6773dba 100644
--- a/account_storage/src/inmemory_account_store.rs
+++ b/account_storage/src/inmemory_account_store.rs
@@ -81,6 +81,7 @@ impl InmemoryAccountStore {
     ) -> bool {
         assert_eq!(prev_account_data.pubkey, new_account_data.pubkey);
         if prev_account_data.account.owner != new_account_data.account.owner
+            || Self::is_deleted(prev_account_data)
             || Self::is_deleted(new_account_data)
         {
             if commitment == Commitment::Finalized {
-- 
2.43.0


From 8951616b25b6f459d400d4c060a04ef1211b1a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:46 +0000
Subject: [PATCH 15/49] fix: look for an account in every storage

The first storage which did not have the account ended the search.
---
 account_storage/src/storage_by_program_id.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/account_storage/src/storage_by_program_id.rs b/account_storage/src/storage_by_program_id.rs
index 3437ade..a970e93 100644
--- a/account_storage/src/storage_by_program_id.rs
+++ b/account_storage/src/storage_by_program_id.rs
@@ -51,8 +51,9 @@ impl AccountStorageInterface for StorageByProgramId {
         commitment: Commitment,
     ) -> Result<Option<AccountData>, AccountLoadingError> {
         for (_, interface) in self.program_id_dispatch_map.iter() {
-            if let Ok(accounts) = interface.get_account(account_pk, commitment) {
-                return Ok(accounts);
+            // the account could be in any of the storages
+            if let Ok(Some(account)) = interface.get_account(account_pk, commitment) {
+                return Ok(Some(account));
             }
         }
         self.default.get_account(account_pk, commitment)
-- 
2.43.0


From 6b587634cd743105390a668fc75a17afcff30ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:46 +0000
Subject: [PATCH 16/49] fix: an update reaches every storage that wants the
 account

An account which changed its owner was updated in the storage of its old program
only, or by chance of the iteration order in the one of its new program only.
---
 account_storage/src/storage_by_program_id.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/account_storage/src/storage_by_program_id.rs b/account_storage/src/storage_by_program_id.rs
index a970e93..86e01c5 100644
--- a/account_storage/src/storage_by_program_id.rs
+++ b/account_storage/src/storage_by_program_id.rs
@@ -27,12 +27,13 @@ impl StorageByProgramId {
 
 impl AccountStorageInterface for StorageByProgramId {
     fn update_account(&self, account_data: AccountData, commitment: Commitment) -> bool {
+        // an account which moves between programs has to be updated in the storages of both
+        let mut updated = false;
         for (_, interface) in self.program_id_dispatch_map.iter() {
-            if interface.update_account(account_data.clone(), commitment) {
-                return true;
-            }
+            updated |= interface.update_account(account_data.clone(), commitment);
         }
-        self.default.update_account(account_data, commitment)
+        updated |= self.default.update_account(account_data, commitment);
+        updated
     }
 
     fn initilize_or_update_account(&self, account_data: AccountData) {
-- 
2.43.0


From 3c0858b5bf189f01055fe40ef8e39356a50b4c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:49 +0000
Subject: [PATCH 17/49] fix: refuse an account filter whose accounts are not a
 list

---
 common/src/account_filter.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/common/src/account_filter.rs b/common/src/account_filter.rs
index db194a1..9927675 100644
--- a/common/src/account_filter.rs
+++ b/common/src/account_filter.rs
@@ -109,6 +109,9 @@ impl<'de> Deserialize<'de> for AccountFilter {
         D: serde::Deserializer<'de>,
     {
         let json: serde_json::value::Value = serde_json::value::Value::deserialize(deserializer)?;
+        if !json.is_object() {
+            return Err(D::Error::custom("account filter should be an object"));
+        }
 
         let parse_pubkey = |value: &serde_json::value::Value| {
             let text = value
@@ -118,11 +121,13 @@ impl<'de> Deserialize<'de> for AccountFilter {
         };
 
         let accounts = match json.get("accounts") {
-            Some(accounts) => match accounts.as_array() {
-                Some(accounts_array) => accounts_array.iter().map(parse_pubkey).try_collect()?,
-                None => vec![],
-            },
-            None => vec![],
+            Some(accounts) if !accounts.is_null() => accounts
+                .as_array()
+                .ok_or_else(|| D::Error::custom("accounts should be a list"))?
+                .iter()
+                .map(parse_pubkey)
+                .try_collect()?,
+            _ => vec![],
         };
         let program_id = match json.get("programId") {
             Some(program_id) if !program_id.is_null() => Some(parse_pubkey(program_id)?),
-- 
2.43.0


From 2ba9aa19de9d1d5ec1d66ea82bf42b8a89e2651a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:25 +0000
Subject: [PATCH 18/49] fix: refuse an account filter whose memcmp text cannot
 be decoded

---
 common/src/account_filter.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/common/src/account_filter.rs b/common/src/account_filter.rs
index 9927675..d8cd63a 100644
--- a/common/src/account_filter.rs
+++ b/common/src/account_filter.rs
@@ -33,6 +33,16 @@ impl MemcmpFilter {
         }
     }
 
+    fn is_decodable(&self) -> bool {
+        match &self.data {
+            MemcmpFilterData::Bytes(_) => true,
+            MemcmpFilterData::Base58(b58) => bs58::decode(b58).into_vec().is_ok(),
+            MemcmpFilterData::Base64(b64) => base64::engine::general_purpose::STANDARD
+                .decode(b64)
+                .is_ok(),
+        }
+    }
+
     pub fn bytes_match(&self, data: &[u8]) -> bool {
         // optimize for bytes / avoid copying
         if let MemcmpFilterData::Bytes(bytes) = &self.data {
@@ -134,10 +144,15 @@ impl<'de> Deserialize<'de> for AccountFilter {
             _ => None,
         };
 
-        let filters = match json.get("filters") {
+        let filters: Option<Vec<AccountFilterType>> = match json.get("filters") {
             Some(filters) => serde_json::from_value(filters.clone()).map_err(D::Error::custom)?,
             None => None,
         };
+        if filters.iter().flatten().any(
+            |filter| matches!(filter, AccountFilterType::Memcmp(memcmp) if !memcmp.is_decodable()),
+        ) {
+            return Err(D::Error::custom("memcmp data could not be decoded"));
+        }
         Ok(Self {
             accounts,
             program_id,
-- 
2.43.0


From d9e4d4f751b7fb5bb8c0d46552ec213ce30aa240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:02 +0000
Subject: [PATCH 19/49] fix: a token account is found by its whole pubkey

When one account was stored under a partial pubkey, every pubkey with the same
first bytes was said to be contained.
---
 .../src/inmemory_token_account_storage.rs     | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_account_storage.rs b/token_account_storage/src/inmemory_token_account_storage.rs
index 16924b0..211f504 100644
--- a/token_account_storage/src/inmemory_token_account_storage.rs
+++ b/token_account_storage/src/inmemory_token_account_storage.rs
@@ -38,20 +38,15 @@ impl TokenAccountStorageInterface for InmemoryTokenAccountStorage {
     fn contains(&self, pubkey: &Pubkey) -> Option<TokenAccountIndex> {
         match self.pubkey_to_index.entry(pubkey.into()) {
             dashmap::mapref::entry::Entry::Occupied(occ) => {
-                let value = occ.get();
-                if value.len() > 1 {
-                    let lk = self.token_accounts.read().unwrap();
-                    for index in value {
-                        if TokenAccount::get_pubkey_from_binary(lk.get(*index as usize).unwrap())
-                            == *pubkey
-                        {
-                            return Some(*index);
-                        }
+                let lk = self.token_accounts.read().unwrap();
+                for index in occ.get() {
+                    if TokenAccount::get_pubkey_from_binary(lk.get(*index as usize).unwrap())
+                        == *pubkey
+                    {
+                        return Some(*index);
                     }
-                    None
-                } else {
-                    Some(value[0])
                 }
+                None
             }
             dashmap::mapref::entry::Entry::Vacant(_) => None,
         }
-- 
2.43.0


From d844f0e391a9122138d1fdd82f4a8f77be8e020a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:02 +0000
Subject: [PATCH 20/49] fix: deleting a token account keeps the accounts with
 the same partial pubkey

The whole index entry was removed, so the other accounts under it were lost.
---
 .../src/inmemory_token_account_storage.rs     | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_account_storage.rs b/token_account_storage/src/inmemory_token_account_storage.rs
index 211f504..43b999e 100644
--- a/token_account_storage/src/inmemory_token_account_storage.rs
+++ b/token_account_storage/src/inmemory_token_account_storage.rs
@@ -122,8 +122,9 @@ impl TokenAccountStorageInterface for InmemoryTokenAccountStorage {
     }
 
     fn delete(&self, pubkey: &Pubkey) {
-        let acc_to_remove = self.pubkey_to_index.remove(&pubkey.into());
-        if let Some((_, indexes)) = acc_to_remove {
+        if let dashmap::mapref::entry::Entry::Occupied(mut occ) =
+            self.pubkey_to_index.entry(pubkey.into())
+        {
             let mut write_lk = self.token_accounts.write().unwrap();
             let deleted_account = TokenAccount {
                 program: Program::TokenProgram,
@@ -139,12 +140,17 @@ impl TokenAccountStorageInterface for InmemoryTokenAccountStorage {
                 additional_data: None,
             }
             .to_bytes();
-            for index in indexes {
-                let binary = write_lk.get_mut(index as usize).unwrap();
-                if TokenAccount::get_pubkey_from_binary(binary) == *pubkey {
-                    TOKEN_ACCOUNT_DELETED_IN_MEMORY.inc();
-                    *binary = deleted_account;
-                    return;
+            let position = occ.get().iter().position(|index| {
+                let binary = write_lk.get(*index as usize).unwrap();
+                TokenAccount::get_pubkey_from_binary(binary) == *pubkey
+            });
+            if let Some(position) = position {
+                TOKEN_ACCOUNT_DELETED_IN_MEMORY.inc();
+                let index = occ.get_mut().remove(position);
+                *write_lk.get_mut(index as usize).unwrap() = deleted_account;
+                drop(write_lk);
+                if occ.get().is_empty() {
+                    occ.remove();
                 }
             }
         }
-- 
2.43.0


From 1bb7983b690332fe09b325413db9f3d53e3f990e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:02 +0000
Subject: [PATCH 21/49] fix: the parent of a slot without updates is kept

The chain of a confirmed or finalized slot ended at it, so the updates of older
slots were not confirmed, and lost when a slot was finalized.
---
 token_account_storage/src/inmemory_token_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 7db27a7..f194e40 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -140,7 +140,7 @@ impl ProcessedAccountStore {
                     slot_info.slot,
                     ProcessedAccountBySlot {
                         processed_accounts: HashMap::new(),
-                        slot_parent: None,
+                        slot_parent: Some(slot_info.parent),
                     },
                 );
             }
-- 
2.43.0


From 2085a2c7286703376dfe0321f7386c28a62e5016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:02 +0000
Subject: [PATCH 22/49] fix: an account closed before it was finalized is
 deleted

A closed account belongs to the system program. It was only recognized when it
was already finalized, so otherwise it stayed readable for ever.
---
 token_account_storage/src/inmemory_token_storage.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index f194e40..0bc1836 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -147,6 +147,12 @@ impl ProcessedAccountStore {
         }
     }
 
+    pub fn contains(&self, account_pk: &Pubkey) -> bool {
+        let lk = self.processed_slot_accounts.read().unwrap();
+        lk.values()
+            .any(|slot| slot.processed_accounts.contains_key(account_pk))
+    }
+
     pub fn get_processed_for_slot(
         &self,
         slot_info: SlotInfo,
@@ -409,6 +415,7 @@ impl TokenProgramAccountsStorage {
                 .token_accounts_storage
                 .contains(&account_data.pubkey)
                 .is_some()
+            || self.processed_storage.contains(&account_data.pubkey)
     }
 
     pub fn get_account_finalized(&self, account_pk: Pubkey) -> Option<AccountData> {
-- 
2.43.0


From ce73dc7ae745178d77c9dee413d3f8d0b1c617ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:02 +0000
Subject: [PATCH 23/49] fix: a deleted multisig account is removed

---
 token_account_storage/src/inmemory_token_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 0bc1836..f4f23ef 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -395,7 +395,7 @@ impl TokenProgramAccountsStorage {
                     TOKEN_MINTS_IN_MEMORY.dec();
                     self.mints_by_index.remove(&index);
                     self.accounts_index_by_mint.remove(&index);
-                } else if self.mints_index_by_pubkey.remove(&account_pk).is_some() {
+                } else if self.multisigs.remove(&account_pk).is_some() {
                     // do nothing multisig account is removed
                 } else {
                     self.token_accounts_storage.delete(&account_pk);
-- 
2.43.0


From e0c543d6c3b7664bb191fa77011c47f65eb7fe95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:03 +0000
Subject: [PATCH 24/49] fix: index a token account again when its owner or mint
 changes

The indexes were only written when the account was first stored, so a program
accounts query for the new owner or mint did not find it.
---
 .../src/inmemory_token_storage.rs              | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index f4f23ef..00ee827 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -342,10 +342,15 @@ impl TokenProgramAccountsStorage {
             TokenProgramAccountType::TokenAccount(token_account) => {
                 let token_account_owner = token_account.owner;
                 let mint_index = token_account.mint;
-                let (token_index, is_added) =
-                    self.token_accounts_storage.save_or_update(token_account);
-                if is_added {
-                    // add account to the indexes
+                let previous = self
+                    .token_accounts_storage
+                    .get_by_pubkey(&token_account.pubkey);
+                let (token_index, _) = self.token_accounts_storage.save_or_update(token_account);
+                // add account to the indexes, if it was not there for this mint or owner
+                if previous
+                    .as_ref()
+                    .map_or(true, |previous| previous.mint != mint_index)
+                {
                     // add account index in accounts_index_by_mint map
                     match self.accounts_index_by_mint.entry(mint_index) {
                         dashmap::mapref::entry::Entry::Occupied(mut occ) => {
@@ -357,7 +362,12 @@ impl TokenProgramAccountsStorage {
                             v.insert(q);
                         }
                     }
+                }
 
+                if previous
+                    .as_ref()
+                    .map_or(true, |previous| previous.owner != token_account_owner)
+                {
                     // add account index in account_by_owner_pubkey map
                     match self
                         .account_by_owner_pubkey
-- 
2.43.0


From 1cc5f9a1d67c18ed0cbf4ae134d5dc59883648a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:50 +0000
Subject: [PATCH 25/49] fix: token accounts are readable without their mint
 account

Rebuilding a token account whose mint was not stored, not finalized yet or
deleted crashed, as did reading such a mint or querying by an unknown mint. The
pubkeys of the mints are now kept apart from the mint accounts.
---
 .../src/inmemory_token_storage.rs             | 67 +++++++++++--------
 .../src/token_program_utils.rs                | 17 +++--
 2 files changed, 50 insertions(+), 34 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 00ee827..770f7fe 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -24,7 +24,7 @@ use crate::{
     account_types::{MintAccount, MintIndex, MultiSig, Program, TokenAccount, TokenAccountIndex},
     token_account_storage_interface::TokenAccountStorageInterface,
     token_program_utils::{
-        get_spl_token_owner_mint_filter, get_token_program_account_type,
+        get_or_create_mint_index, get_spl_token_owner_mint_filter, get_token_program_account_type,
         token_account_to_solana_account, token_mint_to_solana_account,
         token_multisig_to_solana_account, token_program_account_to_solana_account,
         TokenProgramAccountType,
@@ -156,7 +156,7 @@ impl ProcessedAccountStore {
     pub fn get_processed_for_slot(
         &self,
         slot_info: SlotInfo,
-        mints_by_index: &Arc<DashMap<MintIndex, MintAccount>>,
+        mint_pubkeys: &Arc<DashMap<MintIndex, Pubkey>>,
     ) -> Vec<AccountData> {
         let lk = self.processed_slot_accounts.read().unwrap();
         match lk.get(&slot_info.slot) {
@@ -168,7 +168,7 @@ impl ProcessedAccountStore {
                         &account.processed_account,
                         slot_info.slot,
                         account.write_version,
-                        mints_by_index,
+                        mint_pubkeys,
                     )
                 })
                 .collect(),
@@ -309,6 +309,8 @@ impl ProcessedAccountStore {
 pub struct TokenProgramAccountsStorage {
     mints_by_index: Arc<DashMap<MintIndex, MintAccount>>,
     mints_index_by_pubkey: Arc<DashMap<Pubkey, MintIndex>>,
+    // pubkey of every known mint, even if the mint account itself is not stored
+    mint_pubkeys: Arc<DashMap<MintIndex, Pubkey>>,
     multisigs: Arc<DashMap<Pubkey, MultiSig>>,
     accounts_index_by_mint: Arc<DashMap<MintIndex, VecDeque<TokenAccountIndex>>>,
     account_by_owner_pubkey: Arc<DashMap<InmemoryPubkey, Vec<TokenAccountIndex>>>,
@@ -325,6 +327,7 @@ impl TokenProgramAccountsStorage {
         Self {
             mints_by_index: Arc::new(DashMap::new()),
             mints_index_by_pubkey: Arc::new(DashMap::new()),
+            mint_pubkeys: Arc::new(DashMap::new()),
             accounts_index_by_mint: Arc::new(DashMap::new()),
             multisigs: Arc::new(DashMap::new()),
             account_by_owner_pubkey: Arc::new(DashMap::new()),
@@ -383,28 +386,27 @@ impl TokenProgramAccountsStorage {
                 }
             }
             TokenProgramAccountType::Mint(mint_data) => {
-                match self.mints_index_by_pubkey.entry(mint_data.pubkey) {
-                    dashmap::mapref::entry::Entry::Occupied(occ) => {
-                        self.mints_by_index.insert(*occ.get(), mint_data);
-                    }
-                    dashmap::mapref::entry::Entry::Vacant(v) => {
-                        TOKEN_MINTS_IN_MEMORY.inc();
-                        let index = self
-                            .mint_counter
-                            .fetch_add(1, std::sync::atomic::Ordering::Relaxed);
-                        self.mints_by_index.insert(index, mint_data);
-                        v.insert(index);
-                    }
+                let index = get_or_create_mint_index(
+                    mint_data.pubkey,
+                    &self.mints_index_by_pubkey,
+                    &self.mint_pubkeys,
+                    &self.mint_counter,
+                );
+                if self.mints_by_index.insert(index, mint_data).is_none() {
+                    TOKEN_MINTS_IN_MEMORY.inc();
                 }
             }
             TokenProgramAccountType::MultiSig(multisig_data, pubkey) => {
                 self.multisigs.insert(pubkey, multisig_data);
             }
             TokenProgramAccountType::Deleted(account_pk) => {
-                if let Some((_, index)) = self.mints_index_by_pubkey.remove(&account_pk) {
+                // the index of the mint is kept for its token accounts
+                let mint_index = self.mints_index_by_pubkey.get(&account_pk).map(|x| *x);
+                if mint_index
+                    .and_then(|index| self.mints_by_index.remove(&index))
+                    .is_some()
+                {
                     TOKEN_MINTS_IN_MEMORY.dec();
-                    self.mints_by_index.remove(&index);
-                    self.accounts_index_by_mint.remove(&index);
                 } else if self.multisigs.remove(&account_pk).is_some() {
                     // do nothing multisig account is removed
                 } else {
@@ -438,8 +440,8 @@ impl TokenProgramAccountsStorage {
             ));
         }
 
-        if let Some(mint_index) = self.mints_index_by_pubkey.get(&account_pk) {
-            let mint_data = self.mints_by_index.get(&mint_index).unwrap();
+        let mint_index = self.mints_index_by_pubkey.get(&account_pk).map(|x| *x);
+        if let Some(mint_data) = mint_index.and_then(|index| self.mints_by_index.get(&index)) {
             return Some(token_mint_to_solana_account(
                 &mint_data,
                 self.finalized_slot.load(Ordering::Relaxed),
@@ -455,7 +457,7 @@ impl TokenProgramAccountsStorage {
                 &token_account,
                 self.finalized_slot.load(Ordering::Relaxed),
                 0,
-                &self.mints_by_index,
+                &self.mint_pubkeys,
             );
         }
         None
@@ -482,7 +484,14 @@ impl TokenProgramAccountsStorage {
                     dashmap::mapref::entry::Entry::Vacant(_) => None,
                 };
 
-                let mint = mint.map(|pk| *self.mints_index_by_pubkey.get(&pk).unwrap().value());
+                let mint = match mint {
+                    Some(pk) => match self.mints_index_by_pubkey.get(&pk) {
+                        Some(mint_index) => Some(*mint_index),
+                        // no token account of this mint is known
+                        None => return Ok(vec![]),
+                    },
+                    None => None,
+                };
 
                 match indexes {
                     Some(indexes) => {
@@ -503,7 +512,7 @@ impl TokenProgramAccountsStorage {
                                     token_account,
                                     finalized_slot,
                                     0,
-                                    &self.mints_by_index,
+                                    &self.mint_pubkeys,
                                 )
                             })
                             .collect_vec();
@@ -530,7 +539,7 @@ impl TokenProgramAccountsStorage {
                                         token_account,
                                         finalized_slot,
                                         0,
-                                        &self.mints_by_index,
+                                        &self.mint_pubkeys,
                                     )
                                 })
                                 .collect_vec();
@@ -585,6 +594,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
         let token_program_account = match get_token_program_account_type(
             &account_data,
             &self.mints_index_by_pubkey,
+            &self.mint_pubkeys,
             &self.mint_counter,
         ) {
             Ok(res) => res,
@@ -615,6 +625,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
         let token_program_account = match get_token_program_account_type(
             &account_data,
             &self.mints_index_by_pubkey,
+            &self.mint_pubkeys,
             &self.mint_counter,
         ) {
             Ok(res) => res,
@@ -652,7 +663,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                         &processed_account.processed_account,
                         *slot,
                         0,
-                        &self.mints_by_index,
+                        &self.mint_pubkeys,
                     )),
                     None => Ok(self.get_account_finalized(account_pk)),
                 }
@@ -687,7 +698,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                         &processed_account.processed_account,
                         *slot,
                         processed_account.write_version,
-                        &self.mints_by_index,
+                        &self.mint_pubkeys,
                     );
                     match updated_account {
                         Some(updated_account) => {
@@ -723,7 +734,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                     self.processed_storage.update_slot_info(slot_info);
                 }
                 self.processed_storage
-                    .get_processed_for_slot(slot_info, &self.mints_by_index)
+                    .get_processed_for_slot(slot_info, &self.mint_pubkeys)
             }
             Commitment::Finalized => {
                 log::debug!("finalize slot data  : {slot_info:?}");
@@ -742,7 +753,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                             &acc.processed_account,
                             *slot,
                             acc.write_version,
-                            &self.mints_by_index,
+                            &self.mint_pubkeys,
                         )
                     })
                     .collect_vec();
diff --git a/token_account_storage/src/token_program_utils.rs b/token_account_storage/src/token_program_utils.rs
index f69370f..4c58ce8 100644
--- a/token_account_storage/src/token_program_utils.rs
+++ b/token_account_storage/src/token_program_utils.rs
@@ -40,12 +40,14 @@ impl TokenProgramAccountType {
 pub fn get_or_create_mint_index(
     mint: Pubkey,
     mint_index_by_pubkey: &Arc<DashMap<Pubkey, MintIndex>>,
+    mint_pubkeys: &Arc<DashMap<MintIndex, Pubkey>>,
     mint_index_count: &Arc<AtomicU32>,
 ) -> MintIndex {
     match mint_index_by_pubkey.entry(mint) {
         dashmap::mapref::entry::Entry::Occupied(occ) => *occ.get(),
         dashmap::mapref::entry::Entry::Vacant(vac) => {
             let index = mint_index_count.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
+            mint_pubkeys.insert(index, mint);
             vac.insert(index);
             index
         }
@@ -55,6 +57,7 @@ pub fn get_or_create_mint_index(
 pub fn get_token_program_account_type(
     account_data: &AccountData,
     mint_index_by_pubkey: &Arc<DashMap<Pubkey, MintIndex>>,
+    mint_pubkeys: &Arc<DashMap<MintIndex, Pubkey>>,
     mint_index_count: &Arc<AtomicU32>,
 ) -> anyhow::Result<TokenProgramAccountType> {
     if account_data.account.lamports == 0
@@ -116,6 +119,7 @@ pub fn get_token_program_account_type(
                 let mint_index = get_or_create_mint_index(
                     token_account.mint,
                     mint_index_by_pubkey,
+                    mint_pubkeys,
                     mint_index_count,
                 );
                 Ok(TokenProgramAccountType::TokenAccount(TokenAccount {
@@ -191,6 +195,7 @@ pub fn get_token_program_account_type(
             let mint_index = get_or_create_mint_index(
                 token_account.mint,
                 mint_index_by_pubkey,
+                mint_pubkeys,
                 mint_index_count,
             );
             Ok(TokenProgramAccountType::TokenAccount(TokenAccount {
@@ -248,17 +253,17 @@ pub fn token_account_to_solana_account(
     token_account: &TokenAccount,
     updated_slot: u64,
     write_version: u64,
-    mints_by_index: &Arc<DashMap<MintIndex, MintAccount>>,
+    mint_pubkeys: &Arc<DashMap<MintIndex, Pubkey>>,
 ) -> Option<AccountData> {
     if token_account.is_deleted {
         return None;
     }
     let (delegate, delegated_amount) = token_account.delegate.unwrap_or_default();
-    let mint = mints_by_index.get(&token_account.mint).unwrap();
+    let mint = *mint_pubkeys.get(&token_account.mint)?;
     let data = match token_account.program {
         Program::TokenProgram => {
             let t_acc = spl_token::state::Account {
-                mint: mint.pubkey,
+                mint,
                 owner: token_account.owner,
                 amount: token_account.amount,
                 delegate: if token_account.delegate.is_some() {
@@ -285,7 +290,7 @@ pub fn token_account_to_solana_account(
         }
         Program::Token2022Program => {
             let t_acc = spl_token_2022::state::Account {
-                mint: mint.pubkey,
+                mint,
                 owner: token_account.owner,
                 amount: token_account.amount,
                 delegate: if token_account.delegate.is_some() {
@@ -454,11 +459,11 @@ pub fn token_program_account_to_solana_account(
     token_program_account: &TokenProgramAccountType,
     updated_slot: u64,
     write_version: u64,
-    mints_by_index: &Arc<DashMap<MintIndex, MintAccount>>,
+    mint_pubkeys: &Arc<DashMap<MintIndex, Pubkey>>,
 ) -> Option<AccountData> {
     match token_program_account {
         TokenProgramAccountType::TokenAccount(tok_acc) => {
-            token_account_to_solana_account(tok_acc, updated_slot, write_version, mints_by_index)
+            token_account_to_solana_account(tok_acc, updated_slot, write_version, mint_pubkeys)
         }
         TokenProgramAccountType::Mint(mint_account) => Some(token_mint_to_solana_account(
             mint_account,
-- 
2.43.0


From 5cdf674a4f0ec287354207cc419e27c33eb4d454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:50 +0000
Subject: [PATCH 26/49] fix: mints of a snapshot keep their index

A new mint of a snapshot was not entered in the index by pubkey, and a mint
already known was stored under the index it had in the snapshot, over another
mint.
---
 .../src/inmemory_token_storage.rs             | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 770f7fe..eab4079 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -827,17 +827,14 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
         let mut mint_mapping = HashMap::<MintIndex, MintIndex>::new();
         // remap all the mints
         for (index, mint_account) in mints {
-            match self.mints_index_by_pubkey.get_mut(&mint_account.pubkey) {
-                Some(value) => {
-                    mint_mapping.insert(index, *value);
-                    self.mints_by_index.insert(index, mint_account);
-                }
-                None => {
-                    let mint_index = self.mint_counter.fetch_add(1, Ordering::Relaxed);
-                    mint_mapping.insert(index, mint_index);
-                    self.mints_by_index.insert(mint_index, mint_account);
-                }
-            }
+            let mint_index = get_or_create_mint_index(
+                mint_account.pubkey,
+                &self.mints_index_by_pubkey,
+                &self.mint_pubkeys,
+                &self.mint_counter,
+            );
+            mint_mapping.insert(index, mint_index);
+            self.add_account_finalized(TokenProgramAccountType::Mint(mint_account));
         }
 
         for token_account_bytes in token_accounts {
-- 
2.43.0


From 6adc20e160626e4874fed77ff18b6c114b53c994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:50 +0000
Subject: [PATCH 27/49] fix: load the token accounts of a snapshot like other
 finalized accounts

A token account whose mint is not in the snapshot crashed the load, and one
already stored was not indexed by its new owner or mint.
---
 .../src/inmemory_token_storage.rs             | 33 ++++++-------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index eab4079..fde8446 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -840,30 +840,17 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
         for token_account_bytes in token_accounts {
             // use the new mint index
             let mut token_account = TokenAccount::from_bytes(&token_account_bytes);
-            let new_mint_index = *mint_mapping.get(&token_account.mint).unwrap();
-            token_account.mint = new_mint_index;
-            let owner = token_account.owner;
-            let (index, is_added) = self.token_accounts_storage.save_or_update(token_account);
-            if is_added {
-                match self.account_by_owner_pubkey.get_mut(&owner.into()) {
-                    Some(mut accs) => accs.push(index),
-                    None => {
-                        self.account_by_owner_pubkey
-                            .insert(owner.into(), vec![index]);
-                    }
-                }
-
-                match self.accounts_index_by_mint.get_mut(&new_mint_index) {
-                    Some(mut accs) => {
-                        accs.push_back(index);
-                    }
-                    None => {
-                        let mut q = VecDeque::new();
-                        q.push_back(index);
-                        self.accounts_index_by_mint.insert(new_mint_index, q);
-                    }
+            token_account.mint = match mint_mapping.get(&token_account.mint) {
+                Some(mint_index) => *mint_index,
+                None => {
+                    log::error!(
+                        "Snapshot does not contain the mint of token account {}",
+                        token_account.pubkey
+                    );
+                    continue;
                 }
-            }
+            };
+            self.add_account_finalized(TokenProgramAccountType::TokenAccount(token_account));
         }
 
         Ok(())
-- 
2.43.0


From 2dfd43743c7d0645ed5ef6a62561a7bc02bd4518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:50 +0000
Subject: [PATCH 28/49] fix: a token program snapshot contains only multisigs
 of the program

---
 token_account_storage/src/inmemory_token_storage.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index fde8446..a8ba53c 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -786,7 +786,12 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
             })
             .collect_vec();
 
-        let multisigs = self.multisigs.iter().map(|ite| ite.clone()).collect_vec();
+        let multisigs = self
+            .multisigs
+            .iter()
+            .filter(|multisig| multisig.program == program)
+            .map(|multisig| multisig.clone())
+            .collect_vec();
         let token_accounts = self.token_accounts_storage.create_snapshot(program)?;
 
         let snapshot = TokenProgramSnapshot {
-- 
2.43.0


From bd19194f7478953693e2fdf79707705ab4e4e19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:50 +0000
Subject: [PATCH 29/49] fix: a token program snapshot can be loaded

It was compressed without its size, which the decompression reads from it.
---
 token_account_storage/src/inmemory_token_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index a8ba53c..1476e32 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -804,7 +804,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
         lz4::block::compress(
             &binary,
             Some(lz4::block::CompressionMode::HIGHCOMPRESSION(8)),
-            false,
+            true,
         )
         .map_err(|_| AccountLoadingError::CompressionIssues)
     }
-- 
2.43.0


From 5c4966862df3d725fecd666380927e4ff8feafa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:50 +0000
Subject: [PATCH 30/49] fix: a token accounts query checks the program and
 every filter

A query by owner or mint ignored the program and the other filters, and one by
mint returned accounts whose mint had changed.
---
 .../src/inmemory_token_storage.rs             | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 1476e32..132bd2b 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -472,6 +472,8 @@ impl TokenProgramAccountsStorage {
 
         if let Some(account_filters) = account_filters {
             let (owner, mint) = get_spl_token_owner_mint_filter(&program_pubkey, &account_filters);
+            let is_requested =
+                |account: &AccountData| matches_request(account, &program_pubkey, &account_filters);
             if let Some(owner) = owner {
                 let indexes = match self.account_by_owner_pubkey.entry(owner.into()) {
                     dashmap::mapref::entry::Entry::Occupied(token_acc_indexes) => Some(
@@ -515,6 +517,7 @@ impl TokenProgramAccountsStorage {
                                     &self.mint_pubkeys,
                                 )
                             })
+                            .filter(is_requested)
                             .collect_vec();
                         Ok(token_accounts)
                     }
@@ -542,6 +545,7 @@ impl TokenProgramAccountsStorage {
                                         &self.mint_pubkeys,
                                     )
                                 })
+                                .filter(is_requested)
                                 .collect_vec();
                             Ok(token_accounts)
                         }
@@ -557,11 +561,7 @@ impl TokenProgramAccountsStorage {
                     .map(|mint_account| {
                         token_mint_to_solana_account(mint_account.value(), finalized_slot, 0)
                     })
-                    .filter(|account| {
-                        account_filters
-                            .iter()
-                            .all(|filter| filter.allows(&account.account.data.data()))
-                    })
+                    .filter(is_requested)
                     .collect_vec();
                 Ok(mints)
             } else {
@@ -573,6 +573,16 @@ impl TokenProgramAccountsStorage {
     }
 }
 
+fn matches_request(
+    account: &AccountData,
+    program_pubkey: &Pubkey,
+    account_filters: &[AccountFilterType],
+) -> bool {
+    let data = account.account.data.data();
+    account.account.owner == *program_pubkey
+        && account_filters.iter().all(|filter| filter.allows(&data))
+}
+
 #[derive(Serialize, Deserialize)]
 struct TokenProgramSnapshot {
     pub mints: Vec<(MintIndex, MintAccount)>,
-- 
2.43.0


From 737cdb4dce3776173a9cf4a3bfe4cf783bfe4fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:51 +0000
Subject: [PATCH 31/49] fix: a token accounts query considers every account not
 yet finalized

At processed and confirmed commitment accounts created since the finalized slot
were missing, and updated ones were returned even if they did not match any
more.
---
 .../src/inmemory_token_storage.rs             | 51 ++++++++++---------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 132bd2b..08ec06c 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -147,6 +147,14 @@ impl ProcessedAccountStore {
         }
     }
 
+    pub fn get_pubkeys(&self) -> Vec<Pubkey> {
+        let lk = self.processed_slot_accounts.read().unwrap();
+        lk.values()
+            .flat_map(|slot| slot.processed_accounts.keys().cloned())
+            .unique()
+            .collect()
+    }
+
     pub fn contains(&self, account_pk: &Pubkey) -> bool {
         let lk = self.processed_slot_accounts.read().unwrap();
         lk.values()
@@ -691,41 +699,38 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
         if program_pubkey != spl_token::id() && program_pubkey != spl_token_2022::id() {
             return Err(AccountLoadingError::WrongIndex);
         }
+        let filters = account_filters.clone().unwrap_or_default();
         // get all accounts for finalized commitment and update them if necessary
         let mut account_data =
             self.get_program_accounts_finalized(program_pubkey, account_filters)?;
         let confirmed_slot = self.confirmed_slot.load(Ordering::Relaxed);
         if commitment == Commitment::Processed || commitment == Commitment::Confirmed {
-            // get list of all pks to search
-            let pks = account_data.iter().map(|x| x.pubkey).collect_vec();
+            // every account which is not finalized, it can also be new or match since its update
+            let pks = self.processed_storage.get_pubkeys();
             let processed_accounts =
                 self.processed_storage
-                    .get_accounts(pks, commitment, confirmed_slot);
-            let mut to_remove = vec![];
-            for (index, processed_account) in processed_accounts.iter().enumerate() {
-                if let Some((processed_account, slot)) = processed_account {
+                    .get_accounts(pks.clone(), commitment, confirmed_slot);
+            let updated_accounts: HashMap<Pubkey, Option<AccountData>> = pks
+                .into_iter()
+                .zip(processed_accounts)
+                .filter_map(|(pk, processed_account)| {
+                    let (processed_account, slot) = processed_account?;
                     let updated_account = token_program_account_to_solana_account(
                         &processed_account.processed_account,
-                        *slot,
+                        slot,
                         processed_account.write_version,
                         &self.mint_pubkeys,
                     );
-                    match updated_account {
-                        Some(updated_account) => {
-                            // update with processed or confirmed account state
-                            *account_data.get_mut(index).unwrap() = updated_account;
-                        }
-                        None => {
-                            // account must have been deleted
-                            to_remove.push(index);
-                        }
-                    }
-                }
-            }
-
-            for index in to_remove.iter().rev() {
-                account_data.remove(*index);
-            }
+                    Some((pk, updated_account))
+                })
+                .collect();
+            account_data.retain(|account| !updated_accounts.contains_key(&account.pubkey));
+            account_data.extend(
+                updated_accounts
+                    .into_values()
+                    .flatten()
+                    .filter(|account| matches_request(account, &program_pubkey, &filters)),
+            );
         }
         Ok(account_data)
     }
-- 
2.43.0


From e1527bd68550dc8ab6384950754228dbfd4cfa77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:51 +0000
Subject: [PATCH 32/49] fix: token 2022 accounts with extensions are stored

Unpacking needs exactly the base state, so every account with extensions was
refused.
---
 token_account_storage/src/token_program_utils.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/token_account_storage/src/token_program_utils.rs b/token_account_storage/src/token_program_utils.rs
index 4c58ce8..44f806d 100644
--- a/token_account_storage/src/token_program_utils.rs
+++ b/token_account_storage/src/token_program_utils.rs
@@ -97,8 +97,9 @@ pub fn get_token_program_account_type(
         match type_account {
             0 => {
                 //mint
+                // extensions follow the base state
                 let mint = spl_token_2022::state::Mint::unpack_unchecked(
-                    &account_data.account.data.data(),
+                    &data[..spl_token_2022::state::Mint::LEN],
                 )?;
                 Ok(TokenProgramAccountType::Mint(MintAccount {
                     program: crate::account_types::Program::Token2022Program,
@@ -114,7 +115,7 @@ pub fn get_token_program_account_type(
             }
             1 => {
                 let token_account = spl_token_2022::state::Account::unpack_unchecked(
-                    &account_data.account.data.data(),
+                    &data[..spl_token_2022::state::Account::LEN],
                 )?;
                 let mint_index = get_or_create_mint_index(
                     token_account.mint,
-- 
2.43.0


From 3dbf954bf48a0b10c4933c7735441c92d3ffde08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:51 +0000
Subject: [PATCH 33/49] fix: signers of a multisig keep their positions

A default pubkey between the signers was dropped, which moved the later ones.
---
 .../src/token_program_utils.rs                | 24 +++++++++----------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/token_account_storage/src/token_program_utils.rs b/token_account_storage/src/token_program_utils.rs
index 44f806d..bea8fc4 100644
--- a/token_account_storage/src/token_program_utils.rs
+++ b/token_account_storage/src/token_program_utils.rs
@@ -5,7 +5,6 @@ use crate::account_types::{
 };
 use anyhow::bail;
 use dashmap::DashMap;
-use itertools::Itertools;
 use lite_account_manager_common::{
     account_data::{Account, AccountData},
     account_filter::{AccountFilterType, MemcmpFilter, MemcmpFilterData},
@@ -54,6 +53,15 @@ pub fn get_or_create_mint_index(
     }
 }
 
+// signers without the unused places at the end
+fn get_multisig_signers(signers: &[Pubkey]) -> Vec<Pubkey> {
+    let len = signers
+        .iter()
+        .rposition(|x| *x != Pubkey::default())
+        .map_or(0, |last| last + 1);
+    signers[..len].to_vec()
+}
+
 pub fn get_token_program_account_type(
     account_data: &AccountData,
     mint_index_by_pubkey: &Arc<DashMap<Pubkey, MintIndex>>,
@@ -162,12 +170,7 @@ pub fn get_token_program_account_type(
                         is_initialized: multi_sig.is_initialized,
                         m: multi_sig.m,
                         n: multi_sig.n,
-                        signers: multi_sig
-                            .signers
-                            .iter()
-                            .filter(|x| **x != Pubkey::default())
-                            .copied()
-                            .collect_vec(),
+                        signers: get_multisig_signers(&multi_sig.signers),
                     },
                     account_data.pubkey,
                 ))
@@ -235,12 +238,7 @@ pub fn get_token_program_account_type(
                     is_initialized: multi_sig.is_initialized,
                     m: multi_sig.m,
                     n: multi_sig.n,
-                    signers: multi_sig
-                        .signers
-                        .iter()
-                        .filter(|x| **x != Pubkey::default())
-                        .copied()
-                        .collect_vec(),
+                    signers: get_multisig_signers(&multi_sig.signers),
                 },
                 account_data.pubkey,
             ))
-- 
2.43.0


From 960cd9c1c78585c10c9c28e4d6e3a8ec32e8fc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:45 +0000
Subject: [PATCH 34/49] fix: an account created again as another kind replaces
 the old one

The mint, multisig or token account finalized before under the same pubkey was
kept and returned by reads or queries.
---
 .../src/inmemory_token_storage.rs             | 30 ++++++++++++-------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 08ec06c..a254336 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -349,8 +349,11 @@ impl TokenProgramAccountsStorage {
 
     // treat account for finalized commitment
     pub fn add_account_finalized(&self, account: TokenProgramAccountType) -> bool {
+        // a closed account can be created again as an account of another kind
         match account {
             TokenProgramAccountType::TokenAccount(token_account) => {
+                self.remove_mint(&token_account.pubkey);
+                self.multisigs.remove(&token_account.pubkey);
                 let token_account_owner = token_account.owner;
                 let mint_index = token_account.mint;
                 let previous = self
@@ -394,6 +397,8 @@ impl TokenProgramAccountsStorage {
                 }
             }
             TokenProgramAccountType::Mint(mint_data) => {
+                self.multisigs.remove(&mint_data.pubkey);
+                self.token_accounts_storage.delete(&mint_data.pubkey);
                 let index = get_or_create_mint_index(
                     mint_data.pubkey,
                     &self.mints_index_by_pubkey,
@@ -405,19 +410,12 @@ impl TokenProgramAccountsStorage {
                 }
             }
             TokenProgramAccountType::MultiSig(multisig_data, pubkey) => {
+                self.remove_mint(&pubkey);
+                self.token_accounts_storage.delete(&pubkey);
                 self.multisigs.insert(pubkey, multisig_data);
             }
             TokenProgramAccountType::Deleted(account_pk) => {
-                // the index of the mint is kept for its token accounts
-                let mint_index = self.mints_index_by_pubkey.get(&account_pk).map(|x| *x);
-                if mint_index
-                    .and_then(|index| self.mints_by_index.remove(&index))
-                    .is_some()
-                {
-                    TOKEN_MINTS_IN_MEMORY.dec();
-                } else if self.multisigs.remove(&account_pk).is_some() {
-                    // do nothing multisig account is removed
-                } else {
+                if !self.remove_mint(&account_pk) && self.multisigs.remove(&account_pk).is_none() {
                     self.token_accounts_storage.delete(&account_pk);
                 }
             }
@@ -425,6 +423,18 @@ impl TokenProgramAccountsStorage {
         true
     }
 
+    // the index of the mint is kept for its token accounts
+    fn remove_mint(&self, account_pk: &Pubkey) -> bool {
+        let mint_index = self.mints_index_by_pubkey.get(account_pk).map(|x| *x);
+        let is_removed = mint_index
+            .and_then(|index| self.mints_by_index.remove(&index))
+            .is_some();
+        if is_removed {
+            TOKEN_MINTS_IN_MEMORY.dec();
+        }
+        is_removed
+    }
+
     pub fn is_token_program_account(&self, account_data: &AccountData) -> bool {
         self.mints_index_by_pubkey
             .contains_key(&account_data.pubkey)
-- 
2.43.0


From 4714b5f8ded8ed9ed8a58c60fa58c6b04f407329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 35/49] fix: a multisig of a snapshot replaces an account of
 another kind

---
 token_account_storage/src/inmemory_token_storage.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index a254336..32dbf0c 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -851,7 +851,8 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
         } = snapshot;
 
         for multisig in multisigs {
-            self.multisigs.insert(multisig.pubkey, multisig);
+            let pubkey = multisig.pubkey;
+            self.add_account_finalized(TokenProgramAccountType::MultiSig(multisig, pubkey));
         }
 
         let mut mint_mapping = HashMap::<MintIndex, MintIndex>::new();
-- 
2.43.0


From 2d4d35e385bcd0caa3dc679b38f6d6a0dc721fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 36/49] fix: a token program snapshot with a malformed token
 account is refused

---
 token_account_storage/src/account_types.rs    | 27 +++++++++++++++++++
 .../src/inmemory_token_storage.rs             |  6 +++++
 2 files changed, 33 insertions(+)

diff --git a/token_account_storage/src/account_types.rs b/token_account_storage/src/account_types.rs
index 78a556b..432a6a4 100644
--- a/token_account_storage/src/account_types.rs
+++ b/token_account_storage/src/account_types.rs
@@ -176,6 +176,33 @@ impl TokenAccount {
         bytes
     }
 
+    // checks that the binary contains a whole token account, which from_bytes relies on
+    pub fn is_valid_binary(v: &[u8]) -> bool {
+        if v.len() < 78 || v[1] > 1 || (v[0] >> 2) & 0x3 == 0x3 {
+            return false;
+        }
+        let mut size = 78;
+        if v[0] & (0x1 << 4) != 0 {
+            size += 32 + 8; // delegate
+        }
+        if v[0] & (0x1 << 5) != 0 {
+            size += 8; // is native
+        }
+        if v[0] & (0x1 << 6) != 0 {
+            size += 32; // close authority
+        }
+        if v[0] & (0x1 << 7) == 0 {
+            return v.len() == size;
+        }
+        match v.get(size..size + 4) {
+            Some(length) => {
+                v.len() - size - 4
+                    == u32::from_le_bytes(*arrayref::array_ref![length, 0, 4]) as usize
+            }
+            None => false,
+        }
+    }
+
     pub fn from_bytes(v: &[u8]) -> TokenAccount {
         let header: [u8; 78] = v[0..78].try_into().unwrap();
         let mut others = &v[78..];
diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 32dbf0c..3d7db72 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -849,6 +849,12 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
             multisigs,
             token_accounts,
         } = snapshot;
+        if !token_accounts
+            .iter()
+            .all(|binary| TokenAccount::is_valid_binary(binary))
+        {
+            return Err(AccountLoadingError::DeserializationIssues);
+        }
 
         for multisig in multisigs {
             let pubkey = multisig.pubkey;
-- 
2.43.0


From d8d5bf18a5a8a8b0ae828546a4442a93f891cbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 37/49] fix: an account loaded on demand is added to the
 filters

---
 accounts_on_demand/src/accounts_on_demand.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/accounts_on_demand/src/accounts_on_demand.rs b/accounts_on_demand/src/accounts_on_demand.rs
index e288591..bcbe3e9 100644
--- a/accounts_on_demand/src/accounts_on_demand.rs
+++ b/accounts_on_demand/src/accounts_on_demand.rs
@@ -84,8 +84,9 @@ impl AccountStorageInterface for AccountsOnDemand {
                     None => {
                         // account is not loading
                         if self.mutable_filters.contains_account(account_pk) {
-                            // account was already tried to be loaded but does not exists
-                            Ok(None)
+                            // account was already tried to be loaded, either it does not
+                            // exist or it was loaded in the meantime
+                            self.accounts_storage.get_account(account_pk, commitment)
                         } else {
                             // update account loading map
                             // create a notify for accounts under loading
@@ -104,6 +105,8 @@ impl AccountStorageInterface for AccountsOnDemand {
                                 program_id: None,
                                 filters: None,
                             }];
+                            // the storage only accepts accounts of the filters
+                            self.mutable_filters.add_account_filters(&account_filter);
                             self.accounts_source
                                 .save_snapshot(self.accounts_storage.clone(), account_filter)
                                 .map_err(|_| AccountLoadingError::ErrorCreatingSnapshot)?;
-- 
2.43.0


From 09e80ddc4b566b99e709c66d897c20e9edb24317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 38/49] fix: waiting for an account on demand ends when it is
 loaded or times out

---
 accounts_on_demand/src/accounts_on_demand.rs | 35 ++++++++++++++------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/accounts_on_demand/src/accounts_on_demand.rs b/accounts_on_demand/src/accounts_on_demand.rs
index bcbe3e9..9003dda 100644
--- a/accounts_on_demand/src/accounts_on_demand.rs
+++ b/accounts_on_demand/src/accounts_on_demand.rs
@@ -76,9 +76,16 @@ impl AccountStorageInterface for AccountsOnDemand {
                 let mut lk = self.accounts_in_loading.lock().unwrap();
                 match lk.get(&account_pk).cloned() {
                     Some(loading_account) => {
-                        match loading_account.wait_timeout(lk, Duration::from_secs(10)) {
-                            Ok(_) => self.accounts_storage.get_account(account_pk, commitment),
-                            Err(_timeout) => Err(AccountLoadingError::OperationTimeOut),
+                        let (lk, timeout) = loading_account
+                            .wait_timeout_while(lk, Duration::from_secs(10), |in_loading| {
+                                in_loading.contains_key(&account_pk)
+                            })
+                            .unwrap();
+                        drop(lk);
+                        if timeout.timed_out() {
+                            Err(AccountLoadingError::OperationTimeOut)
+                        } else {
+                            self.accounts_storage.get_account(account_pk, commitment)
                         }
                     }
                     None => {
@@ -151,17 +158,23 @@ impl AccountStorageInterface for AccountsOnDemand {
                 .cloned()
             {
                 Some(loading_account) => {
-                    match loading_account.wait_timeout(lk, Duration::from_secs(10)) {
-                        Ok(_) => self.accounts_storage.get_program_accounts(
+                    let key = (program_id, filters.clone().unwrap_or_default());
+                    let (lk, timeout) = loading_account
+                        .wait_timeout_while(lk, Duration::from_secs(10), |in_loading| {
+                            in_loading.contains_key(&key)
+                        })
+                        .unwrap();
+                    drop(lk);
+                    if timeout.timed_out() {
+                        // todo replace with error
+                        log::error!("gPA on program : {}", program_id.to_string());
+                        Err(AccountLoadingError::OperationTimeOut)
+                    } else {
+                        self.accounts_storage.get_program_accounts(
                             program_id,
                             filters.clone(),
                             commitment,
-                        ),
-                        Err(_timeout) => {
-                            // todo replace with error
-                            log::error!("gPA on program : {}", program_id.to_string());
-                            Err(AccountLoadingError::OperationTimeOut)
-                        }
+                        )
                     }
                 }
                 None => {
-- 
2.43.0


From 2f005aa9db816e1e3ebcdd2d4f49243f1608eca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:27 +0000
Subject: [PATCH 39/49] fix: a failed load on demand is reported and tried
 again

---
 accounts_on_demand/src/accounts_on_demand.rs | 161 ++++++++++---------
 1 file changed, 87 insertions(+), 74 deletions(-)

diff --git a/accounts_on_demand/src/accounts_on_demand.rs b/accounts_on_demand/src/accounts_on_demand.rs
index 9003dda..76896c8 100644
--- a/accounts_on_demand/src/accounts_on_demand.rs
+++ b/accounts_on_demand/src/accounts_on_demand.rs
@@ -12,8 +12,8 @@ use prometheus::{opts, register_int_gauge, IntGauge};
 use solana_sdk::pubkey::Pubkey;
 use std::sync::Condvar;
 use std::{
-    collections::{BTreeMap, HashMap, HashSet},
-    sync::{Arc, Mutex},
+    collections::{BTreeMap, BTreeSet, HashSet},
+    sync::{Arc, Mutex, MutexGuard},
     time::Duration,
 };
 
@@ -27,12 +27,58 @@ lazy_static::lazy_static! {
 
 type GpaAccountKey = (Pubkey, Vec<AccountFilterType>);
 
+struct Loading<K> {
+    in_progress: BTreeMap<K, Arc<Condvar>>,
+    // their snapshot failed, it is tried again by the next request
+    failed: BTreeSet<K>,
+}
+
+impl<K: Ord> Loading<K> {
+    fn new() -> Arc<Mutex<Self>> {
+        Arc::new(Mutex::new(Self {
+            in_progress: BTreeMap::new(),
+            failed: BTreeSet::new(),
+        }))
+    }
+
+    // waits until the loading has ended
+    fn wait(
+        loading: MutexGuard<Self>,
+        key: &K,
+        notify: Arc<Condvar>,
+    ) -> Result<(), AccountLoadingError> {
+        let (lk, timeout) = notify
+            .wait_timeout_while(loading, Duration::from_secs(10), |loading| {
+                loading.in_progress.contains_key(key)
+            })
+            .unwrap();
+        if timeout.timed_out() {
+            Err(AccountLoadingError::OperationTimeOut)
+        } else if lk.failed.contains(key) {
+            Err(AccountLoadingError::ErrorCreatingSnapshot)
+        } else {
+            Ok(())
+        }
+    }
+
+    fn finish(&mut self, key: K, is_loaded: bool) {
+        if let Some(notify) = self.in_progress.remove(&key) {
+            notify.notify_all();
+        }
+        if is_loaded {
+            self.failed.remove(&key);
+        } else {
+            self.failed.insert(key);
+        }
+    }
+}
+
 pub struct AccountsOnDemand {
     accounts_source: Arc<dyn AccountsSourceInterface>,
     mutable_filters: Arc<MutableFilterStore>,
     accounts_storage: Arc<dyn AccountStorageInterface>,
-    accounts_in_loading: Arc<Mutex<HashMap<Pubkey, Arc<Condvar>>>>,
-    gpa_in_loading: Arc<Mutex<BTreeMap<GpaAccountKey, Arc<Condvar>>>>,
+    accounts_in_loading: Arc<Mutex<Loading<Pubkey>>>,
+    gpa_in_loading: Arc<Mutex<Loading<GpaAccountKey>>>,
 }
 
 impl AccountsOnDemand {
@@ -45,8 +91,8 @@ impl AccountsOnDemand {
             accounts_source,
             mutable_filters,
             accounts_storage: accounts_storage.clone(),
-            accounts_in_loading: Arc::new(Mutex::new(HashMap::new())),
-            gpa_in_loading: Arc::new(Mutex::new(BTreeMap::new())),
+            accounts_in_loading: Loading::new(),
+            gpa_in_loading: Loading::new(),
         }
     }
 }
@@ -74,36 +120,29 @@ impl AccountStorageInterface for AccountsOnDemand {
                 // first check if we have already subscribed to the required account
                 // This is to avoid resetting geyser subscription because of accounts that do not exists.
                 let mut lk = self.accounts_in_loading.lock().unwrap();
-                match lk.get(&account_pk).cloned() {
+                match lk.in_progress.get(&account_pk).cloned() {
                     Some(loading_account) => {
-                        let (lk, timeout) = loading_account
-                            .wait_timeout_while(lk, Duration::from_secs(10), |in_loading| {
-                                in_loading.contains_key(&account_pk)
-                            })
-                            .unwrap();
-                        drop(lk);
-                        if timeout.timed_out() {
-                            Err(AccountLoadingError::OperationTimeOut)
-                        } else {
-                            self.accounts_storage.get_account(account_pk, commitment)
-                        }
+                        Loading::wait(lk, &account_pk, loading_account)?;
+                        self.accounts_storage.get_account(account_pk, commitment)
                     }
                     None => {
                         // account is not loading
-                        if self.mutable_filters.contains_account(account_pk) {
+                        if self.mutable_filters.contains_account(account_pk)
+                            && !lk.failed.contains(&account_pk)
+                        {
                             // account was already tried to be loaded, either it does not
                             // exist or it was loaded in the meantime
                             self.accounts_storage.get_account(account_pk, commitment)
                         } else {
-                            // update account loading map
-                            // create a notify for accounts under loading
-                            lk.insert(account_pk, Arc::new(Condvar::new()));
                             log::debug!("subscribing to accounts update : {}", account_pk);
                             let mut hash_set = HashSet::new();
                             hash_set.insert(account_pk);
                             self.accounts_source
                                 .subscribe_accounts(hash_set)
                                 .map_err(|_| AccountLoadingError::ErrorSubscribingAccount)?;
+                            // update account loading map
+                            // create a notify for accounts under loading
+                            lk.in_progress.insert(account_pk, Arc::new(Condvar::new()));
                             drop(lk);
 
                             // save snapshot
@@ -114,18 +153,15 @@ impl AccountStorageInterface for AccountsOnDemand {
                             }];
                             // the storage only accepts accounts of the filters
                             self.mutable_filters.add_account_filters(&account_filter);
-                            self.accounts_source
-                                .save_snapshot(self.accounts_storage.clone(), account_filter)
-                                .map_err(|_| AccountLoadingError::ErrorCreatingSnapshot)?;
+                            let result = self
+                                .accounts_source
+                                .save_snapshot(self.accounts_storage.clone(), account_filter);
                             // update loading lock
-                            {
-                                let mut write_lock = self.accounts_in_loading.lock().unwrap();
-                                let notify = write_lock.remove(&account_pk);
-                                drop(write_lock);
-                                if let Some(notify) = notify {
-                                    notify.notify_all();
-                                }
-                            }
+                            self.accounts_in_loading
+                                .lock()
+                                .unwrap()
+                                .finish(account_pk, result.is_ok());
+                            result.map_err(|_| AccountLoadingError::ErrorCreatingSnapshot)?;
                             self.accounts_storage.get_account(account_pk, commitment)
                         }
                     }
@@ -147,63 +183,40 @@ impl AccountStorageInterface for AccountsOnDemand {
         };
         // accounts on demand will fetch gPA if they do not exist
         // it will first compare with existing filters and do the necessary if needed
-        if self.mutable_filters.contains_filter(&account_filter) {
+        let key = (program_id, filters.clone().unwrap_or_default());
+        let is_failed = self.gpa_in_loading.lock().unwrap().failed.contains(&key);
+        if self.mutable_filters.contains_filter(&account_filter) && !is_failed {
             self.accounts_storage
                 .get_program_accounts(program_id, filters.clone(), commitment)
         } else {
             // subsribing to new gpa accounts
             let mut lk = self.gpa_in_loading.lock().unwrap();
-            match lk
-                .get(&(program_id, filters.clone().unwrap_or_default()))
-                .cloned()
-            {
+            match lk.in_progress.get(&key).cloned() {
                 Some(loading_account) => {
-                    let key = (program_id, filters.clone().unwrap_or_default());
-                    let (lk, timeout) = loading_account
-                        .wait_timeout_while(lk, Duration::from_secs(10), |in_loading| {
-                            in_loading.contains_key(&key)
-                        })
-                        .unwrap();
-                    drop(lk);
-                    if timeout.timed_out() {
-                        // todo replace with error
-                        log::error!("gPA on program : {}", program_id.to_string());
-                        Err(AccountLoadingError::OperationTimeOut)
-                    } else {
-                        self.accounts_storage.get_program_accounts(
-                            program_id,
-                            filters.clone(),
-                            commitment,
-                        )
-                    }
+                    Loading::wait(lk, &key, loading_account)?;
+                    self.accounts_storage
+                        .get_program_accounts(program_id, filters, commitment)
                 }
                 None => {
-                    // update account loading map
-                    // create a notify for accounts under loading
-                    lk.insert(
-                        (program_id, filters.clone().unwrap_or_default()),
-                        Arc::new(Condvar::new()),
-                    );
                     self.accounts_source
                         .subscribe_program_accounts(program_id, filters.clone())
                         .map_err(|_| AccountLoadingError::ErrorSubscribingAccount)?;
+                    // update account loading map
+                    // create a notify for accounts under loading
+                    lk.in_progress.insert(key.clone(), Arc::new(Condvar::new()));
                     drop(lk);
                     self.mutable_filters
                         .add_account_filters(&vec![account_filter.clone()]);
 
-                    self.accounts_source
-                        .save_snapshot(self.accounts_storage.clone(), vec![account_filter])
-                        .map_err(|_| AccountLoadingError::ErrorCreatingSnapshot)?;
+                    let result = self
+                        .accounts_source
+                        .save_snapshot(self.accounts_storage.clone(), vec![account_filter]);
                     // update loading lock
-                    {
-                        let mut write_lock = self.gpa_in_loading.lock().unwrap();
-                        let notify =
-                            write_lock.remove(&(program_id, filters.clone().unwrap_or_default()));
-                        drop(write_lock);
-                        if let Some(notify) = notify {
-                            notify.notify_all();
-                        }
-                    }
+                    self.gpa_in_loading
+                        .lock()
+                        .unwrap()
+                        .finish(key, result.is_ok());
+                    result.map_err(|_| AccountLoadingError::ErrorCreatingSnapshot)?;
                     self.accounts_storage
                         .get_program_accounts(program_id, filters, commitment)
                 }
-- 
2.43.0


From c8b17d7640eaed95ebf63d64e6d29bfcf4b791c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:28 +0000
Subject: [PATCH 40/49] fix: program accounts on demand are complete while they
 are loading

---
 accounts_on_demand/src/accounts_on_demand.rs | 63 ++++++++++----------
 1 file changed, 30 insertions(+), 33 deletions(-)

diff --git a/accounts_on_demand/src/accounts_on_demand.rs b/accounts_on_demand/src/accounts_on_demand.rs
index 76896c8..9d20b80 100644
--- a/accounts_on_demand/src/accounts_on_demand.rs
+++ b/accounts_on_demand/src/accounts_on_demand.rs
@@ -184,43 +184,40 @@ impl AccountStorageInterface for AccountsOnDemand {
         // accounts on demand will fetch gPA if they do not exist
         // it will first compare with existing filters and do the necessary if needed
         let key = (program_id, filters.clone().unwrap_or_default());
-        let is_failed = self.gpa_in_loading.lock().unwrap().failed.contains(&key);
-        if self.mutable_filters.contains_filter(&account_filter) && !is_failed {
+        let mut lk = self.gpa_in_loading.lock().unwrap();
+        if let Some(loading_account) = lk.in_progress.get(&key).cloned() {
+            // the filter is already there but its accounts are still loading
+            Loading::wait(lk, &key, loading_account)?;
+            self.accounts_storage
+                .get_program_accounts(program_id, filters, commitment)
+        } else if self.mutable_filters.contains_filter(&account_filter) && !lk.failed.contains(&key)
+        {
+            drop(lk);
             self.accounts_storage
                 .get_program_accounts(program_id, filters.clone(), commitment)
         } else {
             // subsribing to new gpa accounts
-            let mut lk = self.gpa_in_loading.lock().unwrap();
-            match lk.in_progress.get(&key).cloned() {
-                Some(loading_account) => {
-                    Loading::wait(lk, &key, loading_account)?;
-                    self.accounts_storage
-                        .get_program_accounts(program_id, filters, commitment)
-                }
-                None => {
-                    self.accounts_source
-                        .subscribe_program_accounts(program_id, filters.clone())
-                        .map_err(|_| AccountLoadingError::ErrorSubscribingAccount)?;
-                    // update account loading map
-                    // create a notify for accounts under loading
-                    lk.in_progress.insert(key.clone(), Arc::new(Condvar::new()));
-                    drop(lk);
-                    self.mutable_filters
-                        .add_account_filters(&vec![account_filter.clone()]);
-
-                    let result = self
-                        .accounts_source
-                        .save_snapshot(self.accounts_storage.clone(), vec![account_filter]);
-                    // update loading lock
-                    self.gpa_in_loading
-                        .lock()
-                        .unwrap()
-                        .finish(key, result.is_ok());
-                    result.map_err(|_| AccountLoadingError::ErrorCreatingSnapshot)?;
-                    self.accounts_storage
-                        .get_program_accounts(program_id, filters, commitment)
-                }
-            }
+            self.accounts_source
+                .subscribe_program_accounts(program_id, filters.clone())
+                .map_err(|_| AccountLoadingError::ErrorSubscribingAccount)?;
+            // update account loading map
+            // create a notify for accounts under loading
+            lk.in_progress.insert(key.clone(), Arc::new(Condvar::new()));
+            drop(lk);
+            self.mutable_filters
+                .add_account_filters(&vec![account_filter.clone()]);
+
+            let result = self
+                .accounts_source
+                .save_snapshot(self.accounts_storage.clone(), vec![account_filter]);
+            // update loading lock
+            self.gpa_in_loading
+                .lock()
+                .unwrap()
+                .finish(key, result.is_ok());
+            result.map_err(|_| AccountLoadingError::ErrorCreatingSnapshot)?;
+            self.accounts_storage
+                .get_program_accounts(program_id, filters, commitment)
         }
     }
 
-- 
2.43.0


From b0c32be5315dc237f758b7d3210a29a26105874d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:51 +0000
Subject: [PATCH 41/49] fix: an owner or mint condition in Base58 or Base64
 selects token accounts

---
 .../src/token_program_utils.rs                | 21 ++++++++-----------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/token_account_storage/src/token_program_utils.rs b/token_account_storage/src/token_program_utils.rs
index bea8fc4..3e0a8dc 100644
--- a/token_account_storage/src/token_program_utils.rs
+++ b/token_account_storage/src/token_program_utils.rs
@@ -7,7 +7,7 @@ use anyhow::bail;
 use dashmap::DashMap;
 use lite_account_manager_common::{
     account_data::{Account, AccountData},
-    account_filter::{AccountFilterType, MemcmpFilter, MemcmpFilterData},
+    account_filter::{AccountFilterType, MemcmpFilter},
 };
 use solana_sdk::{
     program_option::COption,
@@ -481,7 +481,7 @@ pub fn get_spl_token_owner_mint_filter(
     filters: &[AccountFilterType],
 ) -> (Option<Pubkey>, Option<Pubkey>) {
     let mut data_size_filter: Option<u64> = None;
-    let mut memcmp_filter: Option<&[u8]> = None;
+    let mut memcmp_filter: Option<Vec<u8>> = None;
     let mut owner_key: Option<Pubkey> = None;
     let mut incorrect_owner_len: Option<usize> = None;
     let mut incorrect_mint_len: Option<usize> = None;
@@ -493,14 +493,8 @@ pub fn get_spl_token_owner_mint_filter(
     for filter in filters {
         match filter {
             AccountFilterType::Datasize(size) => data_size_filter = Some(*size),
-            AccountFilterType::Memcmp(MemcmpFilter {
-                offset,
-                data: MemcmpFilterData::Bytes(bytes),
-                ..
-            }) => {
-                if *offset == account_packed_len && *program_id == spl_token_2022::id() {
-                    memcmp_filter = Some(bytes)
-                };
+            AccountFilterType::Memcmp(filter @ MemcmpFilter { offset, .. }) => {
+                let bytes = filter.bytes();
                 if *offset == SPL_TOKEN_ACCOUNT_OWNER_OFFSET {
                     if bytes.len() == PUBKEY_BYTES {
                         owner_key = Pubkey::try_from(&bytes[..]).ok();
@@ -515,11 +509,14 @@ pub fn get_spl_token_owner_mint_filter(
                         incorrect_mint_len = Some(bytes.len());
                     }
                 }
+                if *offset == account_packed_len && *program_id == spl_token_2022::id() {
+                    memcmp_filter = Some(bytes)
+                };
             }
-            _ => {}
         }
     }
-    if data_size_filter == Some(account_packed_len) || memcmp_filter == Some(&[ACCOUNTTYPE_ACCOUNT])
+    if data_size_filter == Some(account_packed_len)
+        || memcmp_filter.as_deref() == Some(&[ACCOUNTTYPE_ACCOUNT])
     {
         if let Some(incorrect_owner_len) = incorrect_owner_len {
             log::error!(
-- 
2.43.0


From f28cc90ae08f1ef57865f1b7a929129186bf7c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:16 +0000
Subject: [PATCH 42/49] fix: load a program query again when a broader one is
 loading or has failed

---
 accounts_on_demand/src/accounts_on_demand.rs | 22 +++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/accounts_on_demand/src/accounts_on_demand.rs b/accounts_on_demand/src/accounts_on_demand.rs
index 9d20b80..2991f18 100644
--- a/accounts_on_demand/src/accounts_on_demand.rs
+++ b/accounts_on_demand/src/accounts_on_demand.rs
@@ -27,10 +27,16 @@ lazy_static::lazy_static! {
 
 type GpaAccountKey = (Pubkey, Vec<AccountFilterType>);
 
+// the accounts of the request are among the accounts of the other one
+fn covers(other: &GpaAccountKey, request: &GpaAccountKey) -> bool {
+    other.0 == request.0 && other.1.iter().all(|filter| request.1.contains(filter))
+}
+
 struct Loading<K> {
     in_progress: BTreeMap<K, Arc<Condvar>>,
     // their snapshot failed, it is tried again by the next request
     failed: BTreeSet<K>,
+    loaded: BTreeSet<K>,
 }
 
 impl<K: Ord> Loading<K> {
@@ -38,6 +44,7 @@ impl<K: Ord> Loading<K> {
         Arc::new(Mutex::new(Self {
             in_progress: BTreeMap::new(),
             failed: BTreeSet::new(),
+            loaded: BTreeSet::new(),
         }))
     }
 
@@ -67,6 +74,7 @@ impl<K: Ord> Loading<K> {
         }
         if is_loaded {
             self.failed.remove(&key);
+            self.loaded.insert(key);
         } else {
             self.failed.insert(key);
         }
@@ -185,12 +193,20 @@ impl AccountStorageInterface for AccountsOnDemand {
         // it will first compare with existing filters and do the necessary if needed
         let key = (program_id, filters.clone().unwrap_or_default());
         let mut lk = self.gpa_in_loading.lock().unwrap();
-        if let Some(loading_account) = lk.in_progress.get(&key).cloned() {
+        let is_loaded = lk.loaded.iter().any(|loaded| covers(loaded, &key));
+        let loading_key = if is_loaded {
+            None
+        } else {
+            lk.in_progress.keys().find(|k| covers(k, &key)).cloned()
+        };
+        if let Some(loading_key) = loading_key {
             // the filter is already there but its accounts are still loading
-            Loading::wait(lk, &key, loading_account)?;
+            let loading_account = lk.in_progress[&loading_key].clone();
+            Loading::wait(lk, &loading_key, loading_account)?;
             self.accounts_storage
                 .get_program_accounts(program_id, filters, commitment)
-        } else if self.mutable_filters.contains_filter(&account_filter) && !lk.failed.contains(&key)
+        } else if self.mutable_filters.contains_filter(&account_filter)
+            && (is_loaded || !lk.failed.iter().any(|failed| covers(failed, &key)))
         {
             drop(lk);
             self.accounts_storage
-- 
2.43.0


From b7f2b15613558ad0316c5942faa505b031e8bcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:58 +0000
Subject: [PATCH 43/49] fix: keep token accounts readable while their slot is
 finalized

---
 .../src/inmemory_token_storage.rs             | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 3d7db72..c8fad59 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -190,7 +190,13 @@ impl ProcessedAccountStore {
     }
 
     // returns list of accounts that are finalized
-    pub fn finalize(&self, slot: u64) -> Vec<(ProcessedAccount, u64)> {
+    // they are added to the finalized accounts while the processed accounts are locked, so that
+    // they can always be found in one of them
+    pub fn finalize(
+        &self,
+        slot: u64,
+        add_finalized: impl Fn(TokenProgramAccountType),
+    ) -> Vec<(ProcessedAccount, u64)> {
         log::debug!("finalizing slot : {slot}");
         let mut map_of_accounts: HashMap<Pubkey, (ProcessedAccount, u64)> = HashMap::new();
         let mut lk = self.processed_slot_accounts.write().unwrap();
@@ -232,6 +238,7 @@ impl ProcessedAccountStore {
         }
         let mut return_vec = Vec::with_capacity(map_of_accounts.len());
         for (_, acc) in map_of_accounts.drain() {
+            add_finalized(acc.0.processed_account.clone());
             return_vec.push(acc);
         }
         return_vec
@@ -769,9 +776,10 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                 }
 
                 // move data from processed storage to main storage
-                let finalized_accounts = self.processed_storage.finalize(slot_info.slot);
-
-                let accounts_notifications = finalized_accounts
+                self.processed_storage
+                    .finalize(slot_info.slot, |account| {
+                        self.add_account_finalized(account);
+                    })
                     .iter()
                     .filter_map(|(acc, slot)| {
                         token_program_account_to_solana_account(
@@ -781,11 +789,7 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                             &self.mint_pubkeys,
                         )
                     })
-                    .collect_vec();
-                for (finalized_account, _) in finalized_accounts {
-                    self.add_account_finalized(finalized_account.processed_account);
-                }
-                accounts_notifications
+                    .collect_vec()
             }
         }
     }
-- 
2.43.0


From 045091b643da326b31a19c40d4d4b27899df9ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:34 +0000
Subject: [PATCH 44/49] fix: do not miss token accounts finalized during a
 query

---
 .../src/inmemory_token_storage.rs             | 28 ++++++++++---------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index c8fad59..66a8a6c 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -717,17 +717,16 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
             return Err(AccountLoadingError::WrongIndex);
         }
         let filters = account_filters.clone().unwrap_or_default();
-        // get all accounts for finalized commitment and update them if necessary
-        let mut account_data =
-            self.get_program_accounts_finalized(program_pubkey, account_filters)?;
-        let confirmed_slot = self.confirmed_slot.load(Ordering::Relaxed);
+        // every account which is not finalized, it can also be new or match since its update
+        // has to be read first, an account could be finalized in the meantime
+        let mut updated_accounts: HashMap<Pubkey, Option<AccountData>> = HashMap::new();
         if commitment == Commitment::Processed || commitment == Commitment::Confirmed {
-            // every account which is not finalized, it can also be new or match since its update
+            let confirmed_slot = self.confirmed_slot.load(Ordering::Relaxed);
             let pks = self.processed_storage.get_pubkeys();
             let processed_accounts =
                 self.processed_storage
                     .get_accounts(pks.clone(), commitment, confirmed_slot);
-            let updated_accounts: HashMap<Pubkey, Option<AccountData>> = pks
+            updated_accounts = pks
                 .into_iter()
                 .zip(processed_accounts)
                 .filter_map(|(pk, processed_account)| {
@@ -741,14 +740,17 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                     Some((pk, updated_account))
                 })
                 .collect();
-            account_data.retain(|account| !updated_accounts.contains_key(&account.pubkey));
-            account_data.extend(
-                updated_accounts
-                    .into_values()
-                    .flatten()
-                    .filter(|account| matches_request(account, &program_pubkey, &filters)),
-            );
         }
+        // get all accounts for finalized commitment and update them if necessary
+        let mut account_data =
+            self.get_program_accounts_finalized(program_pubkey, account_filters)?;
+        account_data.retain(|account| !updated_accounts.contains_key(&account.pubkey));
+        account_data.extend(
+            updated_accounts
+                .into_values()
+                .flatten()
+                .filter(|account| matches_request(account, &program_pubkey, &filters)),
+        );
         Ok(account_data)
     }
 
-- 
2.43.0


From 88d563806acbe821b4ff12f11de22dc3e1192b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:40 +0000
Subject: [PATCH 45/49] fix: concurrent notifications do not lower the
 confirmed slot of the token storage

---
 token_account_storage/src/inmemory_token_storage.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 66a8a6c..0ca526e 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -764,8 +764,10 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
             Commitment::Confirmed => {
                 log::debug!("confirm slot data  : {slot_info:?}");
                 if self.confirmed_slot.load(Ordering::Relaxed) < slot_info.slot {
-                    self.confirmed_slot.store(slot_info.slot, Ordering::Relaxed);
                     self.processed_storage.update_slot_info(slot_info);
+                    // a more recent slot could have been confirmed in the meantime
+                    self.confirmed_slot
+                        .fetch_max(slot_info.slot, Ordering::Relaxed);
                 }
                 self.processed_storage
                     .get_processed_for_slot(slot_info, &self.mint_pubkeys)
@@ -774,7 +776,8 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
                 log::debug!("finalize slot data  : {slot_info:?}");
                 if self.finalized_slot.load(Ordering::Relaxed) < slot_info.slot {
                     self.processed_storage.update_slot_info(slot_info);
-                    self.finalized_slot.store(slot_info.slot, Ordering::Relaxed);
+                    self.finalized_slot
+                        .fetch_max(slot_info.slot, Ordering::Relaxed);
                 }
 
                 // move data from processed storage to main storage
-- 
2.43.0


From d575c9d8b1efaf77ac0e3b77cb2e525f523c73f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:32 +0000
Subject: [PATCH 46/49] fix: refuse RPC program queries with a filter that
 cannot be evaluated

---
 simulate_from_snapshot/src/rpc_server.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/simulate_from_snapshot/src/rpc_server.rs b/simulate_from_snapshot/src/rpc_server.rs
index 45cbc69..e67f06a 100644
--- a/simulate_from_snapshot/src/rpc_server.rs
+++ b/simulate_from_snapshot/src/rpc_server.rs
@@ -13,6 +13,7 @@ use solana_account_decoder::UiAccount;
 use solana_rpc_client_api::client_error::reqwest::Method;
 use solana_rpc_client_api::{
     config::{RpcAccountInfoConfig, RpcProgramAccountsConfig},
+    filter::RpcFilterType,
     response::{OptionalContext, Response as RpcResponse, RpcKeyedAccount, RpcResponseContext},
 };
 use solana_sdk::{commitment_config::CommitmentConfig, pubkey::Pubkey};
@@ -102,6 +103,15 @@ impl TestRpcServer for RpcServerImpl {
             .and_then(|x| x.account_config.commitment)
             .unwrap_or_default();
 
+        // a filter which cannot be evaluated should not be read as another one
+        if let Some(filters) = config.as_ref().and_then(|x| x.filters.as_ref()) {
+            if filters.iter().any(|filter| {
+                *filter == RpcFilterType::TokenAccountState || filter.verify().is_err()
+            }) {
+                return Err(jsonrpsee::types::error::ErrorCode::InvalidParams.into());
+            }
+        }
+
         let account_filters = config
             .as_ref()
             .map(|x| {
-- 
2.43.0


From 7ad43936659c2252715e94017e7c0b395bf9bacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:18 +0000
Subject: [PATCH 47/49] fix: report a storage file of a snapshot archive that
 is shorter than listed

---
 simulate_from_snapshot/src/snapshot_utils/append_vec.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/simulate_from_snapshot/src/snapshot_utils/append_vec.rs b/simulate_from_snapshot/src/snapshot_utils/append_vec.rs
index 53585e6..764b1fc 100644
--- a/simulate_from_snapshot/src/snapshot_utils/append_vec.rs
+++ b/simulate_from_snapshot/src/snapshot_utils/append_vec.rs
@@ -161,7 +161,13 @@ impl AppendVec {
         slot: u64,
     ) -> io::Result<Self> {
         let mut map = MmapMut::map_anon(current_len)?;
-        io::copy(&mut reader.take(current_len as u64), &mut map.as_mut())?;
+        let read = io::copy(&mut reader.take(current_len as u64), &mut map.as_mut())?;
+        if read != current_len as u64 {
+            return Err(io::Error::new(
+                io::ErrorKind::UnexpectedEof,
+                format!("current_len is larger than file size ({})", read),
+            ));
+        }
         Ok(AppendVec {
             map: map.make_read_only()?,
             current_len,
-- 
2.43.0


From 21a05cbd94b5d6d7c16b3f9d811debc1928b55a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:18 +0000
Subject: [PATCH 48/49] fix: report storage files of an unpacked snapshot that
 cannot be read

---
 simulate_from_snapshot/src/snapshot_utils/unpacked.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simulate_from_snapshot/src/snapshot_utils/unpacked.rs b/simulate_from_snapshot/src/snapshot_utils/unpacked.rs
index 780e9b9..95fa9f8 100644
--- a/simulate_from_snapshot/src/snapshot_utils/unpacked.rs
+++ b/simulate_from_snapshot/src/snapshot_utils/unpacked.rs
@@ -86,7 +86,8 @@ impl UnpackedSnapshotExtractor {
     pub fn unboxed_iter(&self) -> impl Iterator<Item = SnapshotResult<AppendVec>> + '_ {
         std::iter::once(self.iter_streams())
             .flatten_ok()
-            .flatten_ok()
+            // a storage file that cannot be read is reported, not left out
+            .map(|append_vec| append_vec.and_then(|append_vec| append_vec))
     }
 
     fn iter_streams(&self) -> SnapshotResult<impl Iterator<Item = SnapshotResult<AppendVec>> + '_> {
-- 
2.43.0


From 4bffe5d6397260cf28450e438ed363941252bc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:04 +0000
Subject: [PATCH 49/49] fix: a snapshot with a multisig of more signers than
 there can be was loaded and made reads panic

---
 token_account_storage/src/inmemory_token_storage.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/token_account_storage/src/inmemory_token_storage.rs b/token_account_storage/src/inmemory_token_storage.rs
index 0ca526e..e959561 100644
--- a/token_account_storage/src/inmemory_token_storage.rs
+++ b/token_account_storage/src/inmemory_token_storage.rs
@@ -864,6 +864,12 @@ impl AccountStorageInterface for TokenProgramAccountsStorage {
         {
             return Err(AccountLoadingError::DeserializationIssues);
         }
+        if multisigs
+            .iter()
+            .any(|multisig| multisig.signers.len() > spl_token::instruction::MAX_SIGNERS)
+        {
+            return Err(AccountLoadingError::DeserializationIssues);
+        }
 
         for multisig in multisigs {
             let pubkey = multisig.pubkey;
-- 
2.43.0

