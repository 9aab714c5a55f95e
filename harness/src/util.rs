//! Shared builders: fixed concrete keys, symbolic amounts.
pub use crate::vh::*;
pub use lite_account_manager_common::{account_data::*, account_filter::*, account_filters_interface::AccountFiltersStoreInterface, account_store_interface::*, commitment::Commitment, slot_info::SlotInfo};
pub use solana_sdk::pubkey::Pubkey;
pub use std::sync::Arc;
pub fn key(i: u8) -> Pubkey { let mut b = [i; 32]; b[0] = i; b[31] = 255 - i; Pubkey::new_from_array(b) }
/// Program keys (never equal to account keys).
pub fn prog(i: u8) -> Pubkey { Pubkey::new_from_array([200 + i; 32]) }
pub fn acct(lamports: u64, data: Data, owner: Pubkey) -> Account { Account { lamports, data, owner, executable: false, rent_epoch: 0 } }
pub fn acc_data(k: Pubkey, a: Account, slot: u64, wv: u64) -> AccountData { AccountData { pubkey: k, account: Arc::new(a), updated_slot: slot, write_version: wv } }
pub fn unc(v: Vec<u8>) -> Data { Data::Uncompressed(v) }
pub fn commitment(i: u64) -> Commitment { match i { 0 => Commitment::Processed, 1 => Commitment::Confirmed, _ => Commitment::Finalized } }
pub fn method(i: u64) -> CompressionMethod { match i { 0 => CompressionMethod::None, 1 => CompressionMethod::Lz4(1), 2 => CompressionMethod::Lz4(8), 3 => CompressionMethod::Zstd(0), _ => CompressionMethod::Zstd(5) } }
pub fn memcmp(offset: u64, data: MemcmpFilterData) -> AccountFilterType { AccountFilterType::Memcmp(MemcmpFilter { offset, data }) }
/// Reference meaning of one filter, written independently of the code under test. `bytes` are the plain bytes.
pub fn spec_memcmp(offset: u64, bytes: &[u8], data: &[u8]) -> bool {
    let (n, m) = (data.len() as u64, bytes.len() as u64);
    if m > n { return false }
    let mut r = false;
    let mut o = 0;
    while o + m <= n { let d = &data[o as usize..(o + m) as usize]; r |= (offset == o) & eqb(d, bytes); o += 1; }
    r
}
