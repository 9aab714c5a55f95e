//! Stand-in for solana-accounts-db 1.18: the layouts the snapshot reader uses.
use serde::{Deserialize, Serialize};
use solana_sdk::{clock::Epoch, epoch_schedule::EpochSchedule, fee_calculator::FeeCalculator, hash::Hash, pubkey::Pubkey, rent::Rent};
use std::collections::HashMap;
pub mod account_storage { pub mod meta {
    use super::super::*;
    pub type StoredMetaWriteVersion = u64;
    #[derive(Clone, PartialEq, Eq, Debug)] #[repr(C)]
    pub struct StoredMeta { pub write_version_obsolete: StoredMetaWriteVersion, pub data_len: u64, pub pubkey: Pubkey }
    #[derive(Serialize, Deserialize, Clone, Debug, Default, Eq, PartialEq)] #[repr(C)]
    pub struct AccountMeta { pub lamports: u64, pub rent_epoch: Epoch, pub owner: Pubkey, pub executable: bool }
} }
pub mod accounts_file { pub const ALIGN_BOUNDARY_OFFSET: usize = std::mem::size_of::<u64>(); }
#[macro_export]
macro_rules! u64_align { ($addr: expr) => { ($addr + (ALIGN_BOUNDARY_OFFSET - 1)) & !(ALIGN_BOUNDARY_OFFSET - 1) }; }
pub mod append_vec { pub const MAXIMUM_APPEND_VEC_FILE_SIZE: u64 = 16 * 1024 * 1024 * 1024; }
pub mod accounts_db {
    use super::*;
    #[derive(Clone, Default, Debug, Serialize, Deserialize, PartialEq, Eq)]
    pub struct BankHashStats { pub num_updated_accounts: u64, pub num_removed_accounts: u64, pub num_lamports_stored: u64, pub total_data_len: u64, pub num_executable_accounts: u64 }
}
pub mod ancestors { pub type AncestorsForSerialization = std::collections::HashMap<u64, usize>; }
pub mod blockhash_queue {
    use super::*;
    #[derive(Serialize, Deserialize, Clone, Debug, Default)] pub struct HashInfo { pub fee_calculator: FeeCalculator, pub hash_index: u64, pub timestamp: u64 }
    #[derive(Serialize, Deserialize, Clone, Debug, Default)] pub struct BlockhashQueue { pub last_hash_index: u64, pub last_hash: Option<Hash>, pub hashes: HashMap<Hash, HashInfo>, pub max_age: usize }
}
pub mod rent_collector {
    use super::*;
    #[derive(Serialize, Deserialize, Clone, Debug, PartialEq)] pub struct RentCollector { pub epoch: Epoch, pub epoch_schedule: EpochSchedule, pub slots_per_year: f64, pub rent: Rent }
}
