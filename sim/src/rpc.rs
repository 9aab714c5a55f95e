//! The RPC server of the simulator: it answers with exactly what its store holds.
use crate::util::*;
use base64::Engine;
use jsonrpsee::types::error::ErrorObjectOwned;
use lam_sim_app::rpc_server::{RpcServerImpl, TestRpcServer};
use solana_account_decoder::{UiAccount, UiAccountData, UiAccountEncoding, UiDataSliceConfig};
use solana_rpc_client_api::{config::{RpcAccountInfoConfig, RpcProgramAccountsConfig}, filter::{Memcmp, MemcmpEncodedBytes, RpcFilterType}, response::OptionalContext};
use solana_sdk::commitment_config::CommitmentConfig;
use std::sync::Mutex;

pub const INVALID_PARAMS: i32 = -32602;
const INTERNAL: i32 = -32603;
pub fn now<F: std::future::Future>(f: F) -> F::Output { tokio::run(f).expect("answered") }
/// A store that notes what it is asked and gives the prepared answer.
#[derive(Default)]
struct Rec { asked: Mutex<Vec<String>>, filters: Mutex<Vec<Option<Vec<AccountFilterType>>>>, answer: Vec<AccountData>, fails: bool, snapshot: Vec<u8> }
impl Rec {
    fn note(&self, what: &str, k: Pubkey, c: Option<Commitment>) { self.asked.lock().unwrap().push(format!("{what} {k} {}", c.map_or(9, |c| c as u8))) }
    fn asked_once(&self, what: &str, k: Pubkey, c: Option<Commitment>) -> bool { let a = self.asked.lock().unwrap(); a.len() == 1 && a[0] == format!("{what} {k} {}", c.map_or(9, |c| c as u8)) }
}
impl AccountStorageInterface for Rec {
    fn update_account(&self, _a: AccountData, _c: Commitment) -> bool { self.asked.lock().unwrap().push("update".into()); true }
    fn initilize_or_update_account(&self, _a: AccountData) { self.asked.lock().unwrap().push("init".into()) }
    fn get_account(&self, k: Pubkey, c: Commitment) -> Result<Option<AccountData>, AccountLoadingError> { self.note("get", k, Some(c)); if self.fails { Err(AccountLoadingError::OperationTimeOut) } else { Ok(self.answer.first().cloned()) } }
    fn get_program_accounts(&self, k: Pubkey, f: Option<Vec<AccountFilterType>>, c: Commitment) -> Result<Vec<AccountData>, AccountLoadingError> { self.note("gpa", k, Some(c)); self.filters.lock().unwrap().push(f); if self.fails { Err(AccountLoadingError::WrongIndex) } else { Ok(self.answer.clone()) } }
    fn process_slot_data(&self, _s: SlotInfo, _c: Commitment) -> Vec<AccountData> { self.asked.lock().unwrap().push("slot".into()); vec![] }
    fn create_snapshot(&self, k: Pubkey) -> Result<Vec<u8>, AccountLoadingError> { self.note("snapshot", k, None); if self.fails { Err(AccountLoadingError::WrongIndex) } else { Ok(self.snapshot.clone()) } }
    fn load_from_snapshot(&self, _k: Pubkey, _s: Vec<u8>) -> Result<(), AccountLoadingError> { self.asked.lock().unwrap().push("load".into()); Ok(()) }
}
fn server(r: &Arc<Rec>) -> RpcServerImpl { RpcServerImpl::new(r.clone()) }
/// The level a request names, and the one it means.
#[allow(deprecated)]
fn level(n: u64) -> (Option<CommitmentConfig>, Commitment) {
    use solana_sdk::commitment_config::CommitmentLevel as L;
    let of = |l| Some(CommitmentConfig { commitment: l });
    match n { 0 => (None, Commitment::Finalized), 1 => (Some(CommitmentConfig::processed()), Commitment::Processed), 2 => (Some(CommitmentConfig::confirmed()), Commitment::Confirmed), 3 => (Some(CommitmentConfig::finalized()), Commitment::Finalized),
        4 => (of(L::Max), Commitment::Finalized), 5 => (of(L::Root), Commitment::Finalized), 6 => (of(L::Recent), Commitment::Processed), 7 => (of(L::Single), Commitment::Confirmed), _ => (of(L::SingleGossip), Commitment::Confirmed) }
}
fn account(k: u8, len: usize) -> AccountData {
    let m = if len > 0 && bools("compressed") { CompressionMethod::Lz4(1) } else { CompressionMethod::None };
    // what is compressed is concrete
    let data = if m == CompressionMethod::None { Data::Uncompressed(if len == 1 { bytes("data", 1) } else { (0..len).map(|i| 201 + 7 * i as u8).collect() }) } else { Data::new(&vec![7u8; len], m) };
    acc_data(key(k), Account { lamports: u64s("lamports"), data, owner: key(90 + k), executable: bools("executable"), rent_epoch: u64s("rent_epoch") }, u64s("slot"), u64s("wv"))
}
fn bad_address() -> String { pick("bad", &["", "1", "not an address", "1111111111111111111111111111111111111111111111111111111111111111111", "0OIl", "JEKNVnkbo3jma5nREBBJCDoXFVeKkD56V3xKrvRmWxFGJEKNVnkbo3"]).to_string() }
/// Encoding asked for, encoding used.
fn config(c: Option<CommitmentConfig>, b58: bool, len: usize) -> (RpcAccountInfoConfig, Option<(usize, usize)>) {
    let slice = match choose("slice", 3) { 0 => None, 1 => Some((u64s("offset") as usize, u64s("length") as usize)), _ => Some((choose("at", len as u64 + 2) as usize, choose("len", len as u64 + 2) as usize)) };
    (RpcAccountInfoConfig { encoding: if b58 { Some(UiAccountEncoding::Base58) } else { match choose("encoding", 2) { 0 => None, _ => Some(UiAccountEncoding::Base64) } }, data_slice: slice.map(|(offset, length)| UiDataSliceConfig { offset, length }), commitment: c, min_context_slot: None }, slice)
}
fn check_ui(u: &UiAccount, a: &AccountData, slice: Option<(usize, usize)>, b58: bool) {
    check((u.lamports == a.account.lamports) & (u.executable == a.account.executable) & (u.rent_epoch == a.account.rent_epoch), "answered-fields");
    check(u.owner == a.account.owner.to_string(), "answered-owner");
    let d = a.account.data.data();
    check(u.space == Some(d.len() as u64), "answered-size");
    let part = match slice { None => &d[..], Some((o, n)) => if o >= d.len() { &[] } else if n > d.len() - o { &d[o..] } else { &d[o..o + n] } };
    match &u.data {
        UiAccountData::Binary(s, e) => {
            check(*e == if b58 { UiAccountEncoding::Base58 } else { UiAccountEncoding::Base64 }, "answered-encoding");
            let want = if b58 { solana_sdk::bs58::encode(part).into_string() } else { base64::engine::general_purpose::STANDARD.encode(part) };
            check(eqb(s.as_bytes(), want.as_bytes()), "answered-data");
        }
        _ => check(false, "answered-encoding"),
    }
}
fn code<T>(r: &Result<T, ErrorObjectOwned>) -> Option<i32> { r.as_ref().err().map(|e| e.code()) }
/// One account by address.
fn account_info() {
    let len = pick("size", &[0u64, 1, 3]) as usize;
    let (c, meant) = level(choose("level", 4));
    let outcome = choose("store", 3);
    let r = Arc::new(Rec { fails: outcome == 2, answer: if outcome == 1 { vec![account(1, len)] } else { vec![] }, ..Rec::default() });
    let s = server(&r);
    if bools("bad-address") {
        let x = now(s.get_account_info(bad_address(), None)); check(code(&x) == Some(INVALID_PARAMS), "bad-address-refused"); check(r.asked.lock().unwrap().is_empty(), "bad-address-not-asked"); reach("refused"); return
    }
    let (cfg, slice) = if c.is_none() && bools("no-config") { (None, None) } else { let x = config(c, false, len); (Some(RpcAccountInfoConfig { min_context_slot: if bools("min") { Some(u64s("min-slot")) } else { None }, ..x.0 }), x.1) };
    let x = now(s.get_account_info(key(1).to_string(), cfg));
    check(r.asked_once("get", key(1), Some(meant)), "asked-for-this-account-and-level");
    match outcome {
        2 => { check(code(&x) == Some(INTERNAL), "failure-reported"); reach("failed") }
        1 => { check(x.is_ok(), "answered"); let x = x.unwrap(); check(x.context.slot == r.answer[0].updated_slot, "answered-slot"); check(x.value.is_some(), "answered-present"); check_ui(&x.value.unwrap(), &r.answer[0], slice, false); obs("slot", x.context.slot); reach("answered") }
        _ => { check(x.is_ok(), "answered"); let x = x.unwrap(); check(x.value.is_none() && x.context.slot == 0, "absent"); reach("absent") }
    }
}
fn text(n: u64, b: &[u8]) -> MemcmpEncodedBytes { match n { 0 => MemcmpEncodedBytes::Bytes(b.to_vec()), 1 => MemcmpEncodedBytes::Base58(solana_sdk::bs58::encode(b).into_string()), _ => MemcmpEncodedBytes::Base64(base64::engine::general_purpose::STANDARD.encode(b)) } }
/// The conditions reach the store as they were meant.
fn conditions() {
    let r = Arc::new(Rec::default()); let s = server(&r);
    let (c, meant) = level(choose("level", 9));
    let mut f = vec![]; let mut want: Vec<(u64, Option<Vec<u8>>)> = vec![]; let mut bad = false;
    let n = choose("conditions", 4);
    if n > 0 { for _ in 1..n { match choose("kind", 5) {
        0 => { let z = u64s("size"); f.push(RpcFilterType::DataSize(z)); want.push((z, None)) }
        1 => { let o = u64s("offset"); let b = bytes("bytes", 2); f.push(RpcFilterType::Memcmp(Memcmp::new(o as usize, MemcmpEncodedBytes::Bytes(b.clone())))); want.push((o, Some(b))) }
        2 => { let o = u64s("offset"); let b = vec![9u8, 200, 31]; f.push(RpcFilterType::Memcmp(Memcmp::new(o as usize, text(1 + choose("text", 2), &b)))); want.push((o, Some(b))) }
        3 => { bad = true; f.push(RpcFilterType::Memcmp(Memcmp::new(0, match choose("undecodable", 3) { 0 => MemcmpEncodedBytes::Base58("0OIl".into()), 1 => MemcmpEncodedBytes::Base64("@@@".into()), _ => MemcmpEncodedBytes::Base64("QUI".into()) }))) }
        _ => { bad = true; f.push(RpcFilterType::TokenAccountState) }
    } } }
    let with = match choose("with-context", 3) { 0 => None, 1 => Some(false), _ => Some(true) };
    let cfg = if n == 0 && bools("no-config") { None } else { Some(RpcProgramAccountsConfig { filters: if n == 0 { None } else { Some(f) }, account_config: RpcAccountInfoConfig { commitment: c, ..Default::default() }, with_context: with }) };
    let meant = if cfg.is_none() { Commitment::Finalized } else { meant };
    ctx("condition-that-cannot-be-met");
    let x = now(s.get_program_accounts(key(7).to_string(), cfg));
    if bad { check(code(&x) == Some(INVALID_PARAMS), "undecodable-condition-refused"); check(r.asked.lock().unwrap().is_empty(), "undecodable-condition-not-asked"); reach("refused"); return }
    check(x.is_ok(), "answered");
    check(r.asked_once("gpa", key(7), Some(meant)), "asked-for-this-program-and-level");
    let g = r.filters.lock().unwrap();
    match (&g[0], n) {
        (None, 0) => reach("unconditional"),
        (Some(g), n) if n > 0 => {
            check(g.len() == want.len(), "asked-with-all-conditions");
            for (g, w) in g.iter().zip(&want) { match (g, w) {
                (AccountFilterType::Datasize(z), (w, None)) => check(z == w, "asked-size"),
                (AccountFilterType::Memcmp(m), (o, Some(b))) => check((m.offset == *o) & eqb(&m.bytes(), b), "asked-bytes"),
                _ => check(false, "asked-kind"),
            } }
            reach("conditional")
        }
        _ => check(false, "asked-with-all-conditions"),
    }
}
/// Every account of the answer, once, and the slot of the newest.
fn program_accounts() {
    let n = choose("accounts", 4) as usize;
    let len = 2;
    let r = Arc::new(Rec { fails: n == 3, answer: (0..n % 3).map(|i| account(i as u8 + 1, len)).collect(), ..Rec::default() });
    let s = server(&r);
    if bools("bad-address") { let x = now(s.get_program_accounts(bad_address(), None)); check(x.is_err(), "bad-address-refused"); check(r.asked.lock().unwrap().is_empty(), "bad-address-not-asked"); reach("refused"); return }
    let with = match choose("with-context", 3) { 0 => None, 1 => Some(false), _ => Some(true) };
    let min = if bools("min") { Some(u64s("min-slot")) } else { None };
    let (a, slice) = config(None, false, len);
    let cfg = if with.is_none() && min.is_none() && slice.is_none() && bools("no-config") { None } else { Some(RpcProgramAccountsConfig { filters: None, account_config: RpcAccountInfoConfig { min_context_slot: min, ..a }, with_context: with }) };
    let x = now(s.get_program_accounts(key(7).to_string(), cfg));
    if n == 3 { check(code(&x) == Some(INTERNAL), "failure-reported"); reach("failed"); return }
    check(x.is_ok(), "answered");
    let l = match x.unwrap() {
        OptionalContext::Context(c) => {
            check(with == Some(true), "context-when-asked");
            let mut ge = true; let mut eq = r.answer.is_empty() & (c.context.slot == 0); for a in &r.answer { ge &= c.context.slot >= a.updated_slot; eq |= c.context.slot == a.updated_slot }
            check(ge & eq, "context-slot-is-the-newest"); obs("slot", c.context.slot); reach("context"); c.value
        }
        OptionalContext::NoContext(v) => { check(with != Some(true), "context-when-asked"); reach("no-context"); v }
    };
    // states older than the slot asked for are left out when the answer carries a slot
    let mut i = 0;
    for a in &r.answer {
        let stays = with != Some(true) || min.map_or(true, |m| a.updated_slot >= m);
        if stays { check(i < l.len() && l[i].pubkey == a.pubkey.to_string(), "answered-accounts"); if i < l.len() { check_ui(&l[i].account, a, slice, false) } i += 1 }
    }
    check(i == l.len(), "answered-accounts");
}
/// Data as Base58 text.
fn base58() {
    let mut a = account(1, 0); let len = pick("size", &[0u64, 2]) as usize;
    Arc::make_mut(&mut a.account).data = Data::Uncompressed(if len == 0 { vec![] } else { vec![250, 3] });
    let r = Arc::new(Rec { answer: vec![a], ..Rec::default() });
    let (cfg, slice) = config(None, true, len);
    let x = now(server(&r).get_account_info(key(1).to_string(), Some(cfg))).unwrap().value.unwrap();
    check_ui(&x, &r.answer[0], slice, true); reach("answered");
}
/// The snapshot of a program as text.
fn snapshot() {
    let n = choose("size", 5) as usize;
    let r = Arc::new(Rec { fails: n == 4, snapshot: bytes("snapshot", n), ..Rec::default() }); let s = server(&r);
    if bools("bad-address") { let x = now(s.get_snapshot(bad_address())); check(code(&x) == Some(INVALID_PARAMS), "bad-address-refused"); check(r.asked.lock().unwrap().is_empty(), "bad-address-not-asked"); reach("refused"); return }
    let x = now(s.get_snapshot(key(7).to_string()));
    check(r.asked_once("snapshot", key(7), None), "asked-for-this-program");
    if n == 4 { check(code(&x) == Some(INTERNAL), "failure-reported"); reach("failed"); return }
    check(x.is_ok(), "answered"); let t = x.unwrap();
    check(eqb(t.as_bytes(), base64::engine::general_purpose::STANDARD.encode(&r.snapshot).as_bytes()), "snapshot-text");
    check(t.len() == (n + 2) / 3 * 4, "snapshot-text-length"); obs("len", t.len() as u64); reach("answered");
}
/// 1200 accounts in one answer, and a snapshot of 200 KB.
fn many() {
    let n = 1200usize; let slot = u64s("slot");
    let k2 = |i: usize| { let mut b = [3u8; 32]; b[0] = i as u8; b[1] = (i >> 8) as u8; Pubkey::new_from_array(b) };
    let r = Arc::new(Rec { answer: (0..n).map(|i| acc_data(k2(i), acct(1 + i as u64, unc(vec![i as u8; i % 9]), prog(0)), if i == 700 { slot } else { 9 }, i as u64)).collect(), snapshot: (0..200_000u32).map(|i| (i * 7) as u8).collect(), ..Rec::default() });
    let s = server(&r); let with = bools("context");
    let x = now(s.get_program_accounts(key(7).to_string(), Some(RpcProgramAccountsConfig { filters: None, account_config: RpcAccountInfoConfig { encoding: Some(UiAccountEncoding::Base64), ..Default::default() }, with_context: Some(with) })));
    let l = match x.unwrap() { OptionalContext::Context(c) => { check(with, "context-when-asked"); check(c.context.slot == slot.max(9), "context-slot-is-the-newest"); c.value } OptionalContext::NoContext(v) => { check(!with, "context-when-asked"); v } };
    check(l.len() == n, "answered-accounts");
    for (i, a) in l.iter().enumerate() { check(a.pubkey == k2(i).to_string() && a.account.lamports == 1 + i as u64, "answered-accounts"); if let UiAccountData::Binary(t, _) = &a.account.data { check(*t == base64::engine::general_purpose::STANDARD.encode(vec![i as u8; i % 9]), "answered-data") } else { check(false, "answered-data") } }
    let t = now(s.get_snapshot(key(7).to_string())).unwrap(); check(t == base64::engine::general_purpose::STANDARD.encode(&r.snapshot), "snapshot-text");
    reach("answered"); obs("slot", slot);
}
crate::harnesses! { T; s_rpc_account => account_info, s_rpc_conditions => conditions, s_rpc_program => program_accounts, s_rpc_b58 => base58, s_rpc_snapshot => snapshot, s_rpc_many => many }
