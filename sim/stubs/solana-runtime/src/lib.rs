//! Stand-in for solana-runtime 1.18: the layouts the snapshot reader skips over.
use serde::{Deserialize, Serialize};
use solana_sdk::{pubkey::Pubkey, stake_history::StakeHistory};
use std::{collections::HashMap, sync::Arc};
pub mod stakes {
    use super::*;
    #[derive(Serialize, Deserialize, Clone, Debug, Default)] pub struct Stakes<T: Clone> { pub vote_accounts: HashMap<Pubkey, (u64, Vec<u8>)>, pub stake_delegations: HashMap<Pubkey, T>, pub unused: u64, pub epoch: u64, pub stake_history: StakeHistory }
}
pub mod epoch_stakes {
    use super::*;
    #[derive(Serialize, Deserialize, Clone, Debug, Default)] pub struct NodeVoteAccounts { pub vote_accounts: Vec<Pubkey>, pub total_stake: u64 }
    #[derive(Serialize, Deserialize, Clone, Debug, Default)] pub struct EpochStakes { pub total_stake: u64, pub node_id_to_vote_accounts: Arc<HashMap<Pubkey, NodeVoteAccounts>>, pub epoch_authorized_voters: Arc<HashMap<Pubkey, Pubkey>> }
}
pub mod snapshot_utils { pub const SNAPSHOT_STATUS_CACHE_FILENAME: &str = "status_cache"; }
