//! The simulator as a whole: the archive it is given, the stream it follows and the server it starts.
use crate::{archive::*, rpc::now, util::*};
use lam_sim_app::rpc_server::{RpcServerImpl, TestRpcServer};
use quic_geyser_common::{compression::CompressionType, filters::Filter, message::Message, types::{account, block_meta::SlotMeta, slot_identifier::SlotIdentifier}};
use solana_account_decoder::UiAccountData;
use solana_rpc_client_api::config::RpcAccountInfoConfig;
use solana_sdk::commitment_config::CommitmentConfig;
use std::{collections::HashMap, str::FromStr, sync::Mutex};

fn token() -> Pubkey { Pubkey::from_str("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA").unwrap() }
fn token_data(mint: Pubkey, owner: Pubkey, amount: u64) -> Vec<u8> { let mut v = vec![0u8; 165]; v[..32].copy_from_slice(&mint.to_bytes()); v[32..64].copy_from_slice(&owner.to_bytes()); v[64..72].copy_from_slice(&amount.to_le_bytes()); v[108] = 1; v }
fn mint_data(supply: u64) -> Vec<u8> { let mut v = vec![0u8; 82]; v[36..44].copy_from_slice(&supply.to_le_bytes()); v[44] = 6; v[45] = 1; v }
fn file(k: u8, owner: Pubkey, data: Vec<u8>) -> Stored { Stored { key: key(k), version: 3, lamports: 2_039_280, rent_epoch: u64::MAX, owner, executable: false, hash: [k; 32], data } }
/// Messages not yet sent, and whether those that make states final wait for the end of the load.
static WAITING: Mutex<Vec<Message>> = Mutex::new(Vec::new());
static GATES: Mutex<u32> = Mutex::new(0);
/// After how many entries of the archive the state was final.
static FINAL: Mutex<u32> = Mutex::new(99);
/// Between the entries of the archive the stream may bring something, or all it has.
fn arrive() {
    let g = { let mut g = GATES.lock().unwrap(); *g += 1; *g };
    if WAITING.lock().unwrap().is_empty() { return }
    for _ in 0..[0, 1, 9][choose("arrives", 3) as usize] {
        let m = { let mut w = WAITING.lock().unwrap(); if w.is_empty() { break } w.remove(0) };
        if let Message::SlotMsg(s) = &m { if s.commitment_config == CommitmentConfig::finalized() { *FINAL.lock().unwrap() = g } }
        quic_geyser_client::INBOX.lock().unwrap().push_back(Some(m));
    }
    tokio::poll_tasks();
}
fn acct_msg(k: u8, owner: Pubkey, slot: u64, wv: u64, data: Vec<u8>) -> Message { Message::AccountMsg(account::Account { slot_identifier: SlotIdentifier { slot }, pubkey: key(k), owner, write_version: wv, lamports: 2_039_280, rent_epoch: u64::MAX, executable: false, data_length: data.len() as u64, data, compression_type: CompressionType::None }) }
fn slot_msg(slot: u64, parent: u64, c: CommitmentConfig) -> Message { Message::SlotMsg(SlotMeta { slot, parent, commitment_config: c }) }
fn read(s: &RpcServerImpl, k: u8, c: CommitmentConfig) -> Option<(u64, Pubkey, Vec<u8>)> {
    let r = now(s.get_account_info(key(k).to_string(), Some(RpcAccountInfoConfig { commitment: Some(c), ..Default::default() }))); check(r.is_ok(), "answered"); let r = r.unwrap();
    r.value.map(|v| (r.context.slot, Pubkey::from_str(&v.owner).unwrap(), match v.data { UiAccountData::Binary(t, _) => { use base64::Engine; base64::engine::general_purpose::STANDARD.decode(t).unwrap() } _ => vec![] }))
}
fn run(with_stream: bool) {
    tokio::reset(); crate::fs::FILES.lock().unwrap().clear(); clap::ARGS.lock().unwrap().clear(); quic_geyser_client::INBOX.lock().unwrap().clear();
    let amount = pick("amount", &[300u64, u64::MAX - 7]);
    // an account in two files, and one that a later file closes
    let twice = !with_stream && bools("twice"); let closed = !with_stream && bools("closed"); let mut late = vec![];
    let mut files = [vec![file(2, token(), token_data(key(1), key(50), amount)), file(3, key(99), vec![1; 165])], vec![file(1, token(), mint_data(5)), file(4, token(), token_data(key(1), key(51), 9))]];
    if twice { files[0].insert(0, file(4, token(), token_data(key(1), key(51), 8))) }
    if closed { files[0].push(file(5, token(), token_data(key(1), key(53), 6))); let mut s = file(5, Pubkey::default(), vec![]); s.lamports = 0; files[1].push(s) }
    let order = if bools("mint-first") { [1, 0] } else { [0, 1] };
    let mut listed: HashMap<u64, Vec<(usize, usize)>> = HashMap::new(); for i in 0..2 { listed.entry(5 + i as u64).or_default().push((i, vec_of(&files[i]).len())) }
    let mut a = tar::entry(b"version", b"1.2.0"); a.extend(tar::entry(b"snapshots/9/9", &manifest(&listed, false)));
    for i in order { a.extend(tar::entry(format!("accounts/{}.{i}", 5 + i).as_bytes(), &vec_of(&files[i]))) }
    crate::fs::put("/lamfs/snapshot.tar.zst", a);
    clap::ARGS.lock().unwrap().push(("snapshot_archive_path".into(), "/lamfs/snapshot.tar.zst".into()));
    let (mut newer, mut level, mut slot, mut ends) = (0, 0, 0, false);
    if with_stream {
        clap::ARGS.lock().unwrap().push(("quic_url".into(), "stream".into()));
        newer = pick("newer", &[4_000_000_000u64]); let l = choose("streamed-to", 4); level = l.min(2); ends = l == 3; slot = u64s("stream-slot"); let wv = u64s("version"); assume((slot > 0) & (wv > 0));
        let before = u64s("older-version"); assume(before < wv); let parent = u64s("parent"); assume(parent < slot);
        let mut w = vec![acct_msg(2, token(), slot, wv, token_data(key(1), key(50), newer)), acct_msg(6, token(), slot, 9, token_data(key(1), key(52), 77)), acct_msg(7, key(99), slot, 9, vec![1; 165]), Message::Ping];
        let o = choose("older-version", 3); if o > 0 { w.insert(o as usize - 1, acct_msg(2, token(), slot, before, token_data(key(1), key(50), 3))) }
        if bools("processed-notice") { w.push(slot_msg(slot, parent, CommitmentConfig::processed())) }
        // the notice of a later slot stands for its ancestors
        let child = level >= 1 && bools("child"); let next = if child { let n = u64s("child-slot"); assume(n > slot); n } else { 0 };
        if level >= 1 { w.push(if child { slot_msg(next, slot, CommitmentConfig::confirmed()) } else { slot_msg(slot, parent, CommitmentConfig::confirmed()) }) }
        if level >= 2 { w.push(if child { slot_msg(next, slot, CommitmentConfig::finalized()) } else { slot_msg(slot, parent, CommitmentConfig::finalized()) }) }
        *WAITING.lock().unwrap() = w;
        *GATES.lock().unwrap() = 0; *FINAL.lock().unwrap() = 99; *tar::BEFORE_ENTRY.lock().unwrap() = Some(arrive);
        *tokio::CHOOSE.lock().unwrap() = Some(some);
    } else { *tar::BEFORE_ENTRY.lock().unwrap() = None; WAITING.lock().unwrap().clear() }
    lam_sim_app::main();
    let m = jsonrpsee::STARTED.lock().unwrap().take(); check(m.is_some(), "server-started"); let s = m.unwrap().downcast::<RpcServerImpl>().unwrap();
    // what is left of the stream comes now
    loop { let m = { let mut w = WAITING.lock().unwrap(); if w.is_empty() { break } w.remove(0) }; quic_geyser_client::INBOX.lock().unwrap().push_back(Some(m)); }
    // the stream may end; what came stays
    if ends { quic_geyser_client::INBOX.lock().unwrap().push_back(None) }
    tokio::poll_tasks();
    if with_stream { let l = quic_geyser_client::SUBSCRIBED.lock().unwrap().clone(); check(l.contains(&Filter::AccountsAll) && l.contains(&Filter::Slot), "subscribed"); check(quic_geyser_client::INBOX.lock().unwrap().is_empty(), "stream-followed") }
    for (i, c) in [CommitmentConfig::processed(), CommitmentConfig::confirmed(), CommitmentConfig::finalized()].into_iter().enumerate() {
        let streamed = with_stream && level >= i as u64;
        for (k, data) in [(1u8, Some(mint_data(5))), (2, Some(token_data(key(1), key(50), if streamed { newer } else { amount }))), (3, None), (4, Some(token_data(key(1), key(51), 9))), (5, None), (6, if streamed { Some(token_data(key(1), key(52), 77)) } else { None }), (7, None)] {
            let g = read(&s, k, c);
            let label = if twice && k == 4 && order[0] == 1 { "older-file-read-last" } else if closed && k == 5 { "closed-by-a-later-file" } else if streamed && k == 2 && *FINAL.lock().unwrap() <= 3 + (order[0] == 1) as u32 { "final-before-loaded" } else if streamed { "served-with-stream" } else { "served" };
            if label != "served" && label != "served-with-stream" { late.push((label, match (&g, &data) { (Some(g), Some(d)) => g.1 == token() && eqb(&g.2, d), (g, d) => g.is_none() && d.is_none() })); continue }
            check(g.is_some() == data.is_some(), label);
            if let (Some(g), Some(d)) = (g, data) { check(g.1 == token() && eqb(&g.2, &d), label); if streamed && (k == 2 || k == 6) { check(g.0 >= slot, "served-slot") } reach("served") }
        }
    }
    for (l, ok) in late { check(ok, l) }
    obs("end", 1);
}
fn load() { run(false) }
fn stream() { run(true) }
crate::harnesses! { T; s_main => load, s_stream => stream }
