#![allow(unused)]
use lite_account_manager_common::{account_data::*, account_filter::*, account_filters_interface::AccountFiltersStoreInterface, account_store_interface::*, commitment::Commitment, except_filter_store::ExceptFilterStore, mutable_filter_store::MutableFilterStore, simple_filter_store::SimpleFilterStore, slot_info::SlotInfo};
use lite_account_storage::{account_data_by_commitment::AccountDataByCommitment, inmemory_account_store::InmemoryAccountStore, storage_by_program_id::StorageByProgramId};
use solana_sdk::pubkey::Pubkey;
use std::{collections::HashMap, sync::Arc};
use Commitment::{Confirmed, Finalized, Processed};
fn key(i: u8) -> Pubkey { Pubkey::new_from_array([i; 32]) }
fn prog(i: u8) -> Pubkey { Pubkey::new_from_array([200 + i; 32]) }
fn acc(k: u8, owner: u8, lamports: u64, data: &[u8], slot: u64, wv: u64) -> AccountData { AccountData { pubkey: key(k), account: Arc::new(Account { lamports, data: Data::Uncompressed(data.to_vec()), owner: prog(owner), executable: false, rent_epoch: 0 }), updated_slot: slot, write_version: wv } }
fn filter(p: u8) -> AccountFilter { AccountFilter { accounts: vec![], program_id: Some(prog(p)), filters: None } }
fn store(ps: &[u8]) -> InmemoryAccountStore { let mut f = SimpleFilterStore::default(); for p in ps { f.add_account_filters(&vec![filter(*p)]); } InmemoryAccountStore::new(Arc::new(f)) }
fn slot(s: u64, parent: u64) -> SlotInfo { SlotInfo { slot: s, parent, root: 0 } }
fn first(st: &dyn AccountStorageInterface, k: u8, c: Commitment) -> Option<u8> { st.get_account(key(k), c).unwrap().map(|a| a.account.data.data()[0]) }
