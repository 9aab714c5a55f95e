//! The reader of ledger snapshots: every account of an archive, once, as it is stored there.
use crate::util::*;
use lam_sim_app::snapshot_utils::{append_vec::AppendVec, append_vec_iter, archived::ArchiveSnapshotExtractor, unpacked::UnpackedSnapshotExtractor, ReadProgressTracking, parallel::*, SnapshotError, SnapshotExtractor, SnapshotResult};
use solana_accounts_db::{accounts_db::BankHashStats, blockhash_queue::*, rent_collector::RentCollector};
use solana_runtime::{epoch_stakes::EpochStakes, stakes::Stakes};
use solana_sdk::{account::ReadableAccount, epoch_schedule::EpochSchedule, fee_calculator::*, hard_forks::HardForks, hash::Hash, inflation::Inflation, rent::Rent, stake::state::Delegation};
use std::{collections::{HashMap, HashSet}, io::{Cursor, Read}, sync::Mutex};

/// An account as a storage file of a snapshot holds it.
#[derive(Clone)]
pub struct Stored { pub key: Pubkey, pub version: u64, pub lamports: u64, pub rent_epoch: u64, pub owner: Pubkey, pub executable: bool, pub hash: [u8; 32], pub data: Vec<u8> }
pub fn stored(i: u8, len: usize) -> Stored { let mut h = [i; 32]; h[0] = u8s("hash"); Stored { key: key(i), version: u64s("version"), lamports: u64s("lamports"), rent_epoch: u64s("rent_epoch"), owner: key(100 + i), executable: bools("executable"), hash: h, data: bytes("data", len) } }
impl Stored {
    pub fn write(&self, v: &mut Vec<u8>) {
        v.extend_from_slice(&self.version.to_le_bytes()); v.extend_from_slice(&(self.data.len() as u64).to_le_bytes()); v.extend_from_slice(&self.key.to_bytes());
        v.extend_from_slice(&self.lamports.to_le_bytes()); v.extend_from_slice(&self.rent_epoch.to_le_bytes()); v.extend_from_slice(&self.owner.to_bytes()); v.push(self.executable as u8); v.extend_from_slice(&[0xee; 7]);
        v.extend_from_slice(&self.hash); v.extend_from_slice(&self.data); while v.len() % 8 != 0 { v.push(0xdd) }
    }
}
pub fn vec_of(l: &[Stored]) -> Vec<u8> { let mut v = vec![]; for s in l { s.write(&mut v) } v }
fn same(v: &AppendVec, l: &[Stored]) {
    let mut n = 0;
    for h in append_vec_iter(v) {
        check(n < l.len(), "no-account-made-up"); if n >= l.len() { return }
        let w = &l[n]; n += 1;
        let s = h.access(); check(s.is_some(), "account-accessible"); let s = s.unwrap();
        check(s.meta.pubkey == w.key && s.meta.data_len == w.data.len() as u64 && s.account_meta.owner == w.owner, "account-identity");
        check((s.meta.write_version_obsolete == w.version) & (s.account_meta.lamports == w.lamports) & (s.account_meta.rent_epoch == w.rent_epoch) & (s.account_meta.executable == w.executable), "account-fields");
        check(eqb(s.data, &w.data), "account-data"); check(eqb(s.hash.as_ref(), &w.hash), "account-hash");
        check(s.offset % 8 == 0 && s.stored_size == (136 + w.data.len() + 7) / 8 * 8, "account-extent");
        let a = s.clone_account();
        check((a.lamports() == w.lamports) & (a.rent_epoch() == w.rent_epoch) & (a.executable() == w.executable) & eqb(a.data(), &w.data) && *a.owner() == w.owner, "account-copied");
        obs("lamports", a.lamports()); reach("account");
    }
    check(n == l.len(), "every-account");
}
/// Gives a few bytes at a time.
struct Slow(Cursor<Vec<u8>>, usize);
impl Read for Slow { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let n = b.len().min(self.1); self.0.read(&mut b[..n]) } }
fn storage_file() {
    let n = choose("accounts", 4); let l: Vec<Stored> = (0..n).map(|i| stored(i as u8 + 1, pick("size", &[0u64, 1, 8, 9]) as usize)).collect();
    let b = vec_of(&l); let len = b.len();
    // the last account may end without padding; what follows the used part is not read
    let mut used = len; if let Some(s) = l.last() { if bools("unpadded") { used = len - (8 - s.data.len() % 8) % 8 } }
    let mut file = b.clone(); if bools("longer") { file.extend_from_slice(&[1; 150]) }
    let slot = u64s("slot"); let step = pick("step", &[1usize, 1000]);
    if used > 0 && bools("cut") { let n = pick("cut", &[1usize, 8, 140]); if n <= used { check(AppendVec::new_from_reader(&mut Slow(Cursor::new(b[..used - n].to_vec()), step), used, slot).is_err(), "short-file-reported"); reach("short"); return } }
    let v = AppendVec::new_from_reader(&mut Slow(Cursor::new(file), step), used, slot); check(v.is_ok(), "read"); let v = v.unwrap();
    check(v.len() == used && v.is_empty() == (used == 0) && v.capacity() == used as u64 && v.remaining_bytes() == 0 && v.slot() == slot, "file-extent");
    same(&v, &l); check(v.get_account(len).is_none() && v.get_account(used).is_none(), "nothing-after-the-end");
}
/// Whatever length an account claims to have, nothing outside the file is read.
fn malformed_file() {
    let size = pick("file", &[0u64, 8, 47, 135, 136, 137, 150, 280]) as usize;
    let mut s = stored(1, 0); s.executable = false; 
    let claim = if size >= 136 && bools("fits") { choose("claimed", size as u64 - 135) } else { let c = u64s("claimed"); assume(size < 136 || c > (size - 136) as u64); c };
    let mut b = vec![]; s.write(&mut b); b[8..16].copy_from_slice(&claim.to_le_bytes()); b.resize(size.max(136), 0); b.truncate(size);
    let v = AppendVec::new_from_reader(&mut Cursor::new(b.clone()), size, 1).unwrap();
    let mut left = size >= 136 && claim <= (size - 136) as u64; let mut at = 0;
    let mut n = 0;
    for h in append_vec_iter(&v) {
        let a = h.access(); check(a.is_some(), "account-accessible"); let a = a.unwrap();
        check(left, "account-beyond-the-end"); check(a.offset == at && at + 136 + a.data.len() <= size, "account-within-the-file");
        check(eqb(a.data, &b[at + 136..at + 136 + a.data.len()]), "account-data");
        at = (at + 136 + a.data.len() + 7) / 8 * 8; left = at + 136 <= size; n += 1; reach("account"); if n > 3 { check(false, "ends"); return }
    }
    check(!left, "every-account"); reach("ended"); obs("n", n);
}
/// The part of the manifest before the list of files.
pub fn bank(old: bool) -> Vec<u8> {
    let mut v = bincode::serialize(&(BlockhashQueue { last_hash_index: 3, last_hash: if old { None } else { Some(Hash::default()) }, hashes: HashMap::from([(Hash::default(), HashInfo::default())]), max_age: 300 }, HashMap::from([(4u64, 0usize)]), Hash::default(), Hash::default(), 4u64, HardForks::default(), [1u64, 2, 3, 4, 5], if old { None } else { Some(6u64) }, 64u64, 6u128, 7i64, 7.5f64)).unwrap();
    v.extend(bincode::serialize(&([8u64, 9, 10, 11], key(1), 5u64, FeeCalculator::default(), FeeRateGovernor::default(), 5u64, RentCollector { epoch: 1 + old as u64, epoch_schedule: EpochSchedule::default(), slots_per_year: 1.5, rent: Rent::default() }, EpochSchedule::default(), Inflation::default(), Stakes::<Delegation>::default(), (HashSet::<Pubkey>::new(), HashSet::<Pubkey>::new(), if old { HashMap::from([(key(3), 4u64)]) } else { HashMap::new() }), HashMap::from([(1u64, EpochStakes::default())]), true)).unwrap());
    v
}
pub fn manifest(files: &HashMap<u64, Vec<(usize, usize)>>, old: bool) -> Vec<u8> {
    let mut v = bank(old);
    v.extend(bincode::serialize(&(files, 77u64, 9u64, Hash::default(), Hash::default(), BankHashStats::default())).unwrap());
    if !old { v.extend(bincode::serialize(&(vec![1u64, 2], vec![(3u64, Hash::default())])).unwrap()) }
    v
}
/// Two slots, three files; the archive in any of several orders and states.
fn archive() {
    let names = [("accounts/5.0", 5u64, 0usize), ("accounts/5.4294967296", 5, 1 << 32), ("accounts/18446744073709551615.0", u64::MAX, 0)];
    let disorder = choose("disorder", 10);
    let mut l: Vec<Vec<Stored>> = vec![]; let mut files: HashMap<u64, Vec<(usize, usize)>> = HashMap::new();
    let sizes = choose("sizes", 4);
    for i in 0..3usize { l.push((0..[[1, 0, 2], [1, 1, 1], [2, 1, 0], [0, 0, 1]][sizes as usize][i]).map(|k| { let mut s = stored((10 * i + k) as u8 + 1, 0); s.data = vec![k as u8; 1 + i + 4 * k]; s }).collect()) }
    let reverse = bools("listed-in-reverse");
    for i in if reverse { [2, 1, 0] } else { [0, 1, 2] } {
        let used = vec_of(&l[i]).len();
        if disorder == 1 && i == 1 { continue }
        files.entry(names[i].1).or_default().push((names[i].2, used));
    }
    if disorder == 2 { files.remove(&u64::MAX); }
    let m = manifest(&files, bools("old-manifest"));
    let vec = |i: usize| tar::entry(names[i].0.as_bytes(), &{ let mut b = vec_of(&l[i]); b.extend_from_slice(&[3; 40]); b });
    let mut a = tar::entry(b"version", b"1.2.0");
    if sizes % 2 == 1 { for d in [&b"snapshots/"[..], b"snapshots/9/", b"snapshots/x", b"snapshots", b"accounts", b"accounts/", b"x/accounts/1.2"] { a.extend(tar::entry(d, b"")) } }
    match disorder {
        3 => a.extend(vec(0)),
        4 | 9 => { a.extend(tar::entry(b"snapshots/9/8", &m)); a.extend(tar::entry(b"snapshots/x/x", &m)); a.extend(tar::entry(b"snapshots/9/9/9", &m)); a.extend(tar::entry(b"other/9/9", &m)) }
        5 => a.extend(tar::entry(b"snapshots/9/9", &m[..m.len() / 2])),
        _ => {}
    }
    if disorder != 4 && disorder != 5 && disorder != 9 { a.extend(tar::entry(b"snapshots/9/9", &m)) }
    a.extend(tar::entry(b"snapshots/status_cache", &[1; 20])); a.extend(tar::entry(b"accounts/", b""));
    let order = if bools("files-in-reverse") { [2, 1, 0] } else { [0, 1, 2] };
    for (n, i) in order.into_iter().enumerate() {
        if disorder == 9 { break }
        if disorder == 6 && n == 1 { a.extend(tar::entry(b"accounts/5.x", b"no storage file")); a.extend(tar::entry(b"accounts/5", b"no storage file")); a.extend(tar::entry(b"accounts/.5", b"")) }
        if disorder == 7 && n == 1 { let mut e = tar::entry(b"accounts/9.9", b"x"); e[257] = 0; a.extend(e) }
        a.extend(vec(i));
    }
    if disorder != 8 { a.extend_from_slice(&[0; 1024]) }
    let x = ArchiveSnapshotExtractor::from_reader(Cursor::new(a));
    match disorder {
        3 | 4 => { check(matches!(x, Err(SnapshotError::UnexpectedAppendVec)), "file-before-manifest-refused"); reach("refused"); return }
        9 => { check(matches!(x, Err(SnapshotError::NoSnapshotManifest)), "missing-manifest-refused"); reach("refused"); return }
        5 => { check(matches!(x, Err(SnapshotError::BincodeError(_))), "cut-manifest-refused"); reach("refused"); return }
        _ => check(x.is_ok(), "opened"),
    }
    let mut x = x.unwrap(); let mut got = x.iter();
    for (n, i) in order.into_iter().enumerate() {
        if disorder == 7 && n == 1 { check(matches!(got.next(), Some(Err(SnapshotError::IOError(_)))), "damage-reported"); check(got.next().is_none(), "damage-ends"); reach("damaged"); return }
        let g = got.next(); check(g.is_some(), "every-file"); let g = g.unwrap();
        if disorder == 1 && i == 1 || disorder == 2 && i == 2 { check(matches!(g, Err(SnapshotError::UnexpectedAppendVec)), "unlisted-file-reported"); reach("unlisted"); continue }
        check(g.is_ok(), "file-read"); let g = g.unwrap();
        check(g.slot() == names[i].1, "file-slot"); same(&g, &l[i]);
    }
    check(got.next().is_none(), "no-file-made-up"); drop(got);
    check(x.iter().next().is_none(), "files-come-once"); reach("complete");
}
/// An archive of 300 files in 100 slots: one of them with 400 accounts, one with an account of 300 KB, and some empty.
fn many() {
    let (n, x) = (300usize, u64s("lamports"));
    let k2 = |i: usize, k: usize| { let mut b = [3u8; 32]; b[0] = i as u8; b[1] = (i >> 8) as u8; b[20] = k as u8; b[21] = (k >> 8) as u8; Pubkey::new_from_array(b) };
    let big = pick("large-file", &[0usize, 150, 299]);
    let l: Vec<Vec<Stored>> = (0..n).map(|i| (0..if i == big { 400 } else { i % 3 }).map(|k| Stored { key: k2(i, k), version: k as u64, lamports: if k == 0 { x } else { 5 }, rent_epoch: i as u64, owner: key(4), executable: k % 2 == 1, hash: [i as u8; 32], data: vec![k as u8; if i == 200 && k == 0 { 300_000 } else { k % 17 }] }).collect()).collect();
    let mut files: HashMap<u64, Vec<(usize, usize)>> = HashMap::new();
    for i in 0..n { files.entry(1000 + i as u64 / 3).or_default().push((i * 7, vec_of(&l[i]).len())) }
    let m = manifest(&files, false);
    let mut a = tar::entry(b"snapshots/9/9", &m);
    let back = bools("files-in-reverse"); let order: Vec<usize> = (0..n).map(|i| if back { n - 1 - i } else { i }).collect();
    for i in &order { a.extend(tar::entry(format!("accounts/{}.{}", 1000 + i / 3, i * 7).as_bytes(), &vec_of(&l[*i]))) }
    a.extend_from_slice(&[0; 1024]);
    let mut x = ArchiveSnapshotExtractor::from_reader(Cursor::new(a)).unwrap(); let mut got = x.iter();
    for i in order {
        let g = got.next(); check(g.is_some(), "every-file"); let g = g.unwrap(); check(g.is_ok(), "file-read"); let g = g.unwrap();
        check(g.slot() == 1000 + i as u64 / 3, "file-slot");
        let mut k = 0;
        for h in append_vec_iter(&g) { let s = h.access().unwrap(); check(k < l[i].len(), "no-account-made-up"); let w = &l[i][k]; k += 1;
            check(s.meta.pubkey == w.key && s.meta.write_version_obsolete == w.version && s.account_meta.rent_epoch == w.rent_epoch && s.data.len() == w.data.len() && s.account_meta.executable == w.executable, "account-identity");
            check(s.account_meta.lamports == w.lamports, "account-fields"); if s.data.len() > 0 { check(s.data[0] == w.data[0] && s.data[s.data.len() - 1] == w.data[0], "account-data") } }
        check(k == l[i].len(), "every-account");
    }
    check(got.next().is_none(), "no-file-made-up"); reach("complete"); obs("n", n as u64);
}
fn first(_: usize) -> usize { 0 }
fn last(n: usize) -> usize { n - 1 }
/// 300 files shared by up to 40 consumers.
fn parallel_many() {
    SEEN.lock().unwrap().clear(); *MADE.lock().unwrap() = 0; *tokio::CHOOSE.lock().unwrap() = Some(if bools("last-first") { last } else { first });
    let n = 300u64; let threads = pick("consumers", &[1usize, 3, 40]); let bad = pick("unreadable", &[0u64, 1, 256, 300]); let refused = pick("refused", &[0u64, 129, 300]);
    let files: Vec<SnapshotResult<AppendVec>> = (1..=n).map(|i| if i == bad { Err(SnapshotError::UnexpectedAppendVec) } else { Ok(AppendVec::new_from_reader(&mut Cursor::new(vec![]), 0, i).unwrap()) }).collect();
    let r = tokio::run(par_iter_append_vecs(Box::new(files.into_iter()), || { *MADE.lock().unwrap() += 1; Collect(refused) }, threads)).expect("ends");
    let seen = SEEN.lock().unwrap().clone(); let mut times = vec![0u8; n as usize + 1]; for i in &seen { times[*i as usize] += 1 }
    check(times.iter().all(|t| *t <= 1) && times[bad as usize] == 0, "file-goes-to-one-consumer");
    if bad > 0 || refused > 0 { check(r.is_err(), "failure-reported"); reach("failed") } else { check(r.is_ok() && seen.len() == n as usize, "every-file-consumed"); reach("done") }
    obs("n", seen.len() as u64);
}
static SEEN: Mutex<Vec<u64>> = Mutex::new(Vec::new());
static MADE: Mutex<usize> = Mutex::new(0);
struct Collect(u64);
#[async_trait::async_trait]
impl AppendVecConsumer for Collect { async fn on_append_vec(&mut self, v: AppendVec) -> anyhow::Result<()> { SEEN.lock().unwrap().push(v.slot()); if v.slot() == self.0 { anyhow::bail!("refused") } Ok(()) } }
pub fn some(n: usize) -> usize { choose("next", n as u64) as usize }
/// Several consumers share the files: each file goes to one of them, and failures come out.
fn parallel() {
    SEEN.lock().unwrap().clear(); *MADE.lock().unwrap() = 0; *tokio::CHOOSE.lock().unwrap() = Some(some);
    let n = choose("files", 5); let threads = 1 + choose("consumers", 3) as usize;
    let bad = choose("unreadable", n + 1); let refused = choose("refused", n + 1);
    let files: Vec<SnapshotResult<AppendVec>> = (1..=n).map(|i| if i == bad { Err(SnapshotError::UnexpectedAppendVec) } else { Ok(AppendVec::new_from_reader(&mut Cursor::new(vec![]), 0, i).unwrap()) }).collect();
    let r = tokio::run(par_iter_append_vecs(Box::new(files.into_iter()), || { *MADE.lock().unwrap() += 1; Collect(refused) }, threads)).expect("ends");
    let seen = SEEN.lock().unwrap().clone();
    check((1..=n).all(|i| seen.iter().filter(|x| **x == i).count() <= 1) && seen.iter().all(|x| *x >= 1 && *x <= n && *x != bad), "file-goes-to-one-consumer");
    check(*MADE.lock().unwrap() <= threads, "no-more-consumers-than-asked");
    if bad > 0 || refused > 0 { check(r.is_err(), "failure-reported"); reach("failed") } else { check(r.is_ok() && seen.len() == n as usize, "every-file-consumed"); reach("done") }
    obs("n", seen.len() as u64);
}
/// What is told about the manifest's reader.
struct Progress(bool);
impl ReadProgressTracking for Progress { fn new_read_progress_tracker(&self, p: &std::path::Path, rd: Box<dyn Read>, len: u64) -> SnapshotResult<Box<dyn Read>> { check(p.ends_with("snapshots/9/9"), "manifest-path"); obs("len", len); if self.0 { Err(SnapshotError::ReadProgressTracking("no".into())) } else { Ok(rd) } } }
/// An unpacked snapshot: the same files in a directory, listed in any order.
fn unpacked() {
    crate::fs::FILES.lock().unwrap().clear();
    let names = [("5.0", 5u64, 0usize), ("5.4294967296", 5, 1 << 32), ("18446744073709551615.0", u64::MAX, 0)];
    let disorder = choose("disorder", 10); let sizes = choose("sizes", 3); let room = if sizes == 1 { 0usize } else { 40 };
    let mut l: Vec<Vec<Stored>> = vec![]; let mut files: HashMap<u64, Vec<(usize, usize)>> = HashMap::new();
    for i in 0..3usize { l.push((0..[[1, 1, 2], [1, 2, 1], [2, 1, 1]][sizes as usize][i]).map(|k| { let mut s = stored((10 * i + k) as u8 + 1, 0); s.data = vec![k as u8; 1 + i + 4 * k]; s }).collect()) }
    for i in 0..3 { let n = vec_of(&l[i]).len(); if disorder == 1 && i == 1 { continue } files.entry(names[i].1).or_default().push((names[i].2, if disorder == 2 && i == 1 { n + 41 } else { n })) }
    let m = manifest(&files, bools("old-manifest"));
    let put = |n: &str, d: Vec<u8>| crate::fs::put(&format!("/lamfs/s/{n}"), d);
    if disorder != 3 { put("snapshots/status_cache", vec![1; 20]) }
    if disorder != 4 { put("snapshots/9/9", if disorder == 5 { m[..m.len() / 2].to_vec() } else { m }) }
    put("snapshots/x9/x9", vec![1; 20]); put("version", b"1.2.0".to_vec());
    let k = choose("order", 6); let order = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][k as usize];
    if disorder == 6 { put("accounts/5.x", b"no storage file".to_vec()); put("accounts/5", b"none".to_vec()); put("accounts/.5", vec![1]); put("accounts/5.7.1", vec![1]) }
    for i in order { if disorder == 9 { break } put(&format!("accounts/{}", names[i].0), { let mut b = vec_of(&l[i]); if disorder == 7 && i == 1 { b.clear() } else { b.extend_from_slice(&vec![3; room]) } b }) }
    let x = UnpackedSnapshotExtractor::open(std::path::Path::new("/lamfs/s"), Box::new(Progress(disorder == 8)));
    match disorder {
        3 => { check(matches!(x, Err(SnapshotError::NoStatusCache)), "missing-status-cache-refused"); reach("refused"); return }
        4 => { check(matches!(x, Err(SnapshotError::NoSnapshotManifest)), "missing-manifest-refused"); reach("refused"); return }
        5 => { check(matches!(x, Err(SnapshotError::BincodeError(_))), "cut-manifest-refused"); reach("refused"); return }
        8 => { check(matches!(x, Err(SnapshotError::ReadProgressTracking(_))), "tracker-failure-reported"); reach("refused"); return }
        _ => check(x.is_ok(), "opened"),
    }
    let mut x = x.unwrap();
    if disorder == 9 { let mut g = x.iter(); check(matches!(g.next(), Some(Err(SnapshotError::IOError(_)))), "missing-directory-reported"); check(g.next().is_none(), "ends"); reach("refused"); return }
    let mut got = x.iter();
    for i in order {
        let g = got.next(); check(g.is_some(), "every-file"); if g.is_none() { return } let g = g.unwrap();
        if disorder == 1 && i == 1 { check(matches!(g, Err(SnapshotError::UnexpectedAppendVec)), "unlisted-file-reported"); reach("unlisted"); continue }
        if (disorder == 2 || disorder == 7) && i == 1 { check(matches!(g, Err(SnapshotError::IOError(_))), "short-file-reported"); reach("short"); continue }
        check(g.is_ok(), "file-read"); let g = g.unwrap();
        check(g.slot() == names[i].1 && g.remaining_bytes() == room as u64, "file-slot"); same(&g, &l[i]);
    }
    check(got.next().is_none(), "no-file-made-up"); reach("complete");
}
crate::harnesses! { T; s_unpacked => unpacked, s_file => storage_file, s_file_bad => malformed_file, s_archive => archive, s_parallel => parallel, s_archive_many => many, s_parallel_many => parallel_many }
