#![allow(unused)]
use lam_sim_app::{rpc_server::{RpcServerImpl, TestRpcServer}, snapshot_utils::{append_vec::AppendVec, append_vec_iter, archived::ArchiveSnapshotExtractor, parallel::*, unpacked::UnpackedSnapshotExtractor, ReadProgressTracking, SnapshotError, SnapshotExtractor, SnapshotResult}};
use lite_account_manager_common::{account_data::*, account_filter::*, account_store_interface::*, commitment::Commitment, slot_info::SlotInfo};
use solana_accounts_db::{accounts_db::BankHashStats, blockhash_queue::*, rent_collector::RentCollector};
use solana_runtime::{epoch_stakes::EpochStakes, stakes::Stakes};
use solana_rpc_client_api::{config::*, filter::*, response::OptionalContext};
use solana_account_decoder::*;
use quic_geyser_common::{compression::CompressionType, message::Message, types::{account, block_meta::SlotMeta, slot_identifier::SlotIdentifier}};
use solana_sdk::{commitment_config::CommitmentConfig, epoch_schedule::EpochSchedule, fee_calculator::*, hard_forks::HardForks, hash::Hash, inflation::Inflation, pubkey::Pubkey, rent::Rent, stake::state::Delegation};
use std::{collections::{HashMap, HashSet}, io::{Cursor, Read}, str::FromStr, sync::{Arc, Mutex}};
fn key(i: u8) -> Pubkey { Pubkey::new_from_array([i; 32]) }
/// One account in a storage file.
fn stored(v: &mut Vec<u8>, k: u8, owner: Pubkey, lamports: u64, data: &[u8]) {
    v.extend(3u64.to_le_bytes()); v.extend((data.len() as u64).to_le_bytes()); v.extend(key(k).to_bytes()); v.extend(lamports.to_le_bytes()); v.extend(5u64.to_le_bytes()); v.extend(owner.to_bytes()); v.extend([0; 8]); v.extend([k; 32]); v.extend(data); while v.len() % 8 != 0 { v.push(0) }
}
fn bank() -> Vec<u8> {
    let mut v = bincode::serialize(&(BlockhashQueue { last_hash_index: 3, last_hash: Some(Hash::default()), hashes: HashMap::from([(Hash::default(), HashInfo::default())]), max_age: 300 }, HashMap::from([(4u64, 0usize)]), Hash::default(), Hash::default(), 4u64, HardForks::default(), [1u64, 2, 3, 4, 5], Some(6u64), 64u64, 6u128, 7i64, 7.5f64)).unwrap();
    v.extend(bincode::serialize(&([8u64, 9, 10, 11], key(1), 5u64, FeeCalculator::default(), FeeRateGovernor::default(), 5u64, RentCollector { epoch: 1, epoch_schedule: EpochSchedule::default(), slots_per_year: 1.5, rent: Rent::default() }, EpochSchedule::default(), Inflation::default(), Stakes::<Delegation>::default(), (HashSet::<Pubkey>::new(), HashSet::<Pubkey>::new(), HashMap::<Pubkey, u64>::new()), HashMap::from([(1u64, EpochStakes::default())]), true)).unwrap());
    v
}
fn manifest(files: &[(u64, usize, usize)]) -> Vec<u8> {
    let mut m: HashMap<u64, Vec<(usize, usize)>> = HashMap::new(); for (s, i, n) in files { m.entry(*s).or_default().push((*i, *n)) }
    let mut v = bank(); v.extend(bincode::serialize(&(m, 77u64, 9u64, Hash::default(), Hash::default(), BankHashStats::default())).unwrap());
    v.extend(bincode::serialize(&(vec![1u64, 2], vec![(3u64, Hash::default())])).unwrap()); v
}
/// An archive of the given storage files (slot, id, bytes).
fn archive(files: &[(u64, usize, Vec<u8>)]) -> Vec<u8> {
    let l: Vec<_> = files.iter().map(|f| (f.0, f.1, f.2.len())).collect();
    let mut a = tar::entry(b"version", b"1.2.0"); a.extend(tar::entry(b"snapshots/9/9", &manifest(&l)));
    for f in files { a.extend(tar::entry(format!("accounts/{}.{}", f.0, f.1).as_bytes(), &f.2)) }
    a.extend([0; 1024]); a
}
fn token() -> Pubkey { Pubkey::from_str("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA").unwrap() }
fn token_data(mint: Pubkey, owner: Pubkey, amount: u64) -> Vec<u8> { let mut v = vec![0u8; 165]; v[..32].copy_from_slice(&mint.to_bytes()); v[32..64].copy_from_slice(&owner.to_bytes()); v[64..72].copy_from_slice(&amount.to_le_bytes()); v[108] = 1; v }
fn mint_data() -> Vec<u8> { let mut v = vec![0u8; 82]; v[44] = 6; v[45] = 1; v }
fn now<F: std::future::Future>(f: F) -> F::Output { tokio::run(f).expect("answered") }
/// A store with one prepared answer.
#[derive(Default)]
struct Fake { answer: Vec<AccountData>, asked: Mutex<Vec<(Option<Vec<AccountFilterType>>, Commitment)>> }
impl AccountStorageInterface for Fake {
    fn update_account(&self, _a: AccountData, _c: Commitment) -> bool { true }
    fn initilize_or_update_account(&self, _a: AccountData) {}
    fn get_account(&self, k: Pubkey, c: Commitment) -> Result<Option<AccountData>, AccountLoadingError> { self.asked.lock().unwrap().push((None, c)); Ok(self.answer.first().cloned()) }
    fn get_program_accounts(&self, k: Pubkey, f: Option<Vec<AccountFilterType>>, c: Commitment) -> Result<Vec<AccountData>, AccountLoadingError> { self.asked.lock().unwrap().push((f, c)); Ok(self.answer.clone()) }
    fn process_slot_data(&self, _s: SlotInfo, _c: Commitment) -> Vec<AccountData> { vec![] }
    fn create_snapshot(&self, k: Pubkey) -> Result<Vec<u8>, AccountLoadingError> { Ok(vec![1, 2, 3]) }
    fn load_from_snapshot(&self, _k: Pubkey, _s: Vec<u8>) -> Result<(), AccountLoadingError> { Ok(()) }
}
fn acc(k: u8, slot: u64, data: &[u8]) -> AccountData { AccountData { pubkey: key(k), account: Arc::new(Account { lamports: 7, data: Data::Uncompressed(data.to_vec()), owner: key(99), executable: false, rent_epoch: 0 }), updated_slot: slot, write_version: 1 } }
/// Runs the simulator on an archive, the messages waiting in the stream.
fn simulate(archive: Vec<u8>, stream: Vec<Message>) -> RpcServerImpl {
    let p = format!("archive.{}", std::process::id()); std::fs::write(&p, archive).unwrap();
    clap::ARGS.lock().unwrap().push(("snapshot_archive_path".into(), p.clone())); if !stream.is_empty() { clap::ARGS.lock().unwrap().push(("quic_url".into(), "stream".into())) }
    lam_sim_app::main(); std::fs::remove_file(&p).unwrap();
    let s = jsonrpsee::STARTED.lock().unwrap().take().unwrap().downcast::<RpcServerImpl>().unwrap();
    for m in stream { quic_geyser_client::INBOX.lock().unwrap().push_back(Some(m)) }
    for _ in 0..3 { tokio::poll_tasks() } *s
}
fn acct_msg(k: u8, slot: u64, wv: u64, data: Vec<u8>) -> Message { Message::AccountMsg(account::Account { slot_identifier: SlotIdentifier { slot }, pubkey: key(k), owner: token(), write_version: wv, lamports: 2_039_280, rent_epoch: u64::MAX, executable: false, data_length: data.len() as u64, data, compression_type: CompressionType::None }) }
fn slot_msg(slot: u64, parent: u64, c: CommitmentConfig) -> Message { Message::SlotMsg(SlotMeta { slot, parent, commitment_config: c }) }
fn amount(s: &RpcServerImpl, k: u8, c: CommitmentConfig) -> Option<u64> {
    let r = now(s.get_account_info(key(k).to_string(), Some(RpcAccountInfoConfig { commitment: Some(c), ..Default::default() }))).unwrap();
    r.value.map(|v| match v.data { UiAccountData::Binary(t, _) => { use base64::Engine; let d = base64::engine::general_purpose::STANDARD.decode(t).unwrap(); u64::from_le_bytes(d[64..72].try_into().unwrap()) } _ => panic!() })
}
