//! Stand-in for quic-geyser-common: the messages of the stream.
pub mod filters { #[derive(Debug, Clone, PartialEq, Eq)] pub enum Filter { AccountsAll, Slot, BlockMeta, TransactionsAll } }
pub mod compression { #[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum CompressionType { None, Lz4Fast(i32), Lz4(i32) } }
pub mod types { pub mod connections_parameters { #[derive(Debug, Clone, Default)] pub struct ConnectionParameters; }
    pub mod slot_identifier { #[derive(Debug, Clone, Copy, PartialEq, Eq)] pub struct SlotIdentifier { pub slot: u64 } }
    pub mod account { use solana_sdk::pubkey::Pubkey;
        #[derive(Debug, Clone, PartialEq, Eq)] pub struct Account { pub slot_identifier: super::slot_identifier::SlotIdentifier, pub pubkey: Pubkey, pub owner: Pubkey, pub write_version: u64, pub lamports: u64, pub rent_epoch: u64, pub executable: bool, pub data: Vec<u8>, pub compression_type: crate::compression::CompressionType, pub data_length: u64 } }
    pub mod block_meta { use solana_sdk::commitment_config::CommitmentConfig;
        #[derive(Debug, Clone, PartialEq, Eq)] pub struct SlotMeta { pub slot: u64, pub parent: u64, pub commitment_config: CommitmentConfig } } }
pub mod message { #[derive(Debug, Clone, PartialEq, Eq)] pub enum Message { AccountMsg(crate::types::account::Account), SlotMsg(crate::types::block_meta::SlotMeta), Ping } }
