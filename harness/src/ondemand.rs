//! Accounts on demand: what is missing is subscribed to and loaded once, failures are reported and tried again.
use crate::util::*;
use lite_account_manager_common::{accounts_source_interface::AccountsSourceInterface, mutable_filter_store::MutableFilterStore};
use lite_account_storage::inmemory_account_store::InmemoryAccountStore;
use lite_accounts_on_demand::accounts_on_demand::AccountsOnDemand;
use std::{collections::HashSet, sync::{atomic::{AtomicU64, Ordering::SeqCst}, Condvar, Mutex}};

/// The cluster: current states, and which calls fail (bit n: the n-th call).
pub struct Source { subs: AtomicU64, snaps: AtomicU64, fail_subs: u64, fail_snaps: u64, chain: Mutex<Vec<AccountData>>, gate: Option<Arc<(Mutex<bool>, Condvar)>>, asked: Mutex<Vec<AccountFilter>>, /// updates and notified slots that come while a snapshot is being delivered
    live: Mutex<Vec<Live>> }
#[derive(Clone)]
enum Live { Update(AccountData, Commitment), Slot(SlotInfo, Commitment), Deliver }
impl Source {
    fn new(fail_subs: u64, fail_snaps: u64, chain: Vec<AccountData>, gate: bool) -> Arc<Self> { Arc::new(Source { subs: AtomicU64::new(0), snaps: AtomicU64::new(0), fail_subs, fail_snaps, chain: Mutex::new(chain), gate: if gate { Some(Arc::new((Mutex::new(false), Condvar::new()))) } else { None }, asked: Mutex::new(vec![]), live: Mutex::new(vec![]) }) }
    fn sub(&self, f: AccountFilter) -> anyhow::Result<()> { let n = self.subs.fetch_add(1, SeqCst); self.asked.lock().unwrap().push(f); if n < 64 && self.fail_subs >> n & 1 == 1 { anyhow::bail!("no subscription") } Ok(()) }
}
fn wanted(a: &AccountData, fs: &AccountFilters) -> bool {
    fs.iter().any(|f| if let Some(p) = f.program_id { a.account.owner == p && f.filters.iter().flatten().all(|t| match t { AccountFilterType::Datasize(n) => a.account.data.len() as u64 == *n, _ => false }) } else { f.accounts.contains(&a.pubkey) })
}
impl AccountsSourceInterface for Source {
    fn subscribe_accounts(&self, account: HashSet<Pubkey>) -> anyhow::Result<()> { self.sub(AccountFilter { accounts: account.into_iter().collect(), program_id: None, filters: None }) }
    fn subscribe_program_accounts(&self, p: Pubkey, filters: Option<Vec<AccountFilterType>>) -> anyhow::Result<()> { self.sub(AccountFilter { accounts: vec![], program_id: Some(p), filters }) }
    fn save_snapshot(&self, storage: Arc<dyn AccountStorageInterface>, fs: AccountFilters) -> anyhow::Result<()> {
        let n = self.snaps.fetch_add(1, SeqCst);
        if let Some(g) = &self.gate { let mut l = g.0.lock().unwrap(); while !*l { l = g.1.wait(l).unwrap() } }
        let fail = n < 64 && self.fail_snaps >> n & 1 == 1;
        let live = std::mem::take(&mut *self.live.lock().unwrap());
        for e in &live { match e { Live::Update(a, c) => { storage.update_account(a.clone(), *c); } Live::Slot(i, c) => { storage.process_slot_data(i.clone(), *c); } Live::Deliver => self.deliver(&storage, &fs, false) } }
        if live.is_empty() { self.deliver(&storage, &fs, fail) }
        if fail { anyhow::bail!("no snapshot") } Ok(())
    }
}
impl Source {
    fn deliver(&self, storage: &Arc<dyn AccountStorageInterface>, fs: &AccountFilters, fail: bool) {
        let l = self.chain.lock().unwrap();
        // a failing snapshot delivers a part
        for (i, a) in l.iter().filter(|a| wanted(a, fs)).enumerate() { if fail && i == 1 { break } storage.initilize_or_update_account(a.clone()) }
    }
}
fn setup(src: &Arc<Source>) -> (Arc<MutableFilterStore>, Arc<AccountsOnDemand>) {
    let f = Arc::new(MutableFilterStore::default());
    let st: Arc<dyn AccountStorageInterface> = Arc::new(InmemoryAccountStore::new(f.clone()));
    (f.clone(), Arc::new(AccountsOnDemand::new(src.clone(), f, st)))
}
fn state(k: u8, len: usize, id: u8, slot: u64, lamports: u64) -> AccountData { let mut d = vec![0u8; len]; d[0] = id; acc_data(key(k), acct(lamports, unc(d), prog(0)), slot, 1) }
fn id(a: &AccountData) -> u8 { a.account.data.data()[0] }
/// Reads, program queries and updates in any order, with failing calls.
fn history(n: usize) {
    let (l1, l3) = (u64s("lamports"), u64s("lamports")); assume((l1 > 0) & (l3 > 0));
    let s = u64s("slot"); assume(s > 0 && s < 1 << 60);
    let src = Source::new(choose("failing-subscription", 3), choose("failing-snapshot", 3) , vec![state(1, 2, 1, s, l1), state(3, 3, 3, s, l3)], false);
    let (filters, od) = setup(&src);
    // accounts 1 and 3 exist, 2 does not
    let mut now = [0u8, 1, 0, 3]; let mut lam = [0, l1, 0, l3]; let mut slots = [0, s, 0, s];
    let mut stored = [false; 4]; let mut asked = [false; 4];
    let mut loaded = [false; 2];
    let (mut subs, mut snaps) = (0u64, 0u64);
    for e in 0..n {
        match choose("op", 3) {
            0 => {
                let k = 1 + choose("account", 3) as usize; let c = choose("level", 3);
                let r = od.get_account(key(k as u8), commitment(c));
                if !stored[k] && !asked[k] {
                    let (fs, fp) = (src.fail_subs >> subs & 1 == 1, src.fail_snaps >> snaps & 1 == 1);
                    subs += 1;
                    if fs { check(matches!(r, Err(AccountLoadingError::ErrorSubscribingAccount)), "subscription-error"); continue }
                    check(filters.contains_account(key(k as u8)), "account-filter-added");
                    snaps += 1; if now[k] > 0 { stored[k] = true }
                    if fp { check(matches!(r, Err(AccountLoadingError::ErrorCreatingSnapshot)), "snapshot-error"); continue }
                    asked[k] = true; reach("loaded");
                }
                check(r.is_ok(), "read-ok"); let r = r.unwrap();
                check(r.is_some() == stored[k], "read-present");
                if let Some(g) = r { check(id(&g) == now[k], "read-current"); check((g.account.lamports == lam[k]) & (g.updated_slot == slots[k]) & (g.pubkey == key(k as u8)), "read-fields"); obs("lamports", g.account.lamports) }
            }
            1 => {
                let q = choose("query", 2) as usize; let c = choose("level", 3);
                let f = if q == 0 { None } else { Some(vec![AccountFilterType::Datasize(2)]) };
                let r = od.get_program_accounts(prog(0), f, commitment(c));
                // the accounts of the second query are among those of the first
                let covered = loaded[0] || loaded[q];
                if !covered {
                    let (fs, fp) = (src.fail_subs >> subs & 1 == 1, src.fail_snaps >> snaps & 1 == 1);
                    subs += 1;
                    if fs { check(matches!(r, Err(AccountLoadingError::ErrorSubscribingAccount)), "subscription-error"); continue }
                    snaps += 1; if now[1] > 0 { stored[1] = true }
                    if fp { check(matches!(r, Err(AccountLoadingError::ErrorCreatingSnapshot)), "snapshot-error"); reach("query-failed"); continue }
                    if q == 0 { stored[3] = true }
                    loaded[q] = true; reach("program-loaded");
                }
                check(r.is_ok(), "query-ok"); let r = r.unwrap();
                let want: Vec<usize> = [1usize, 3].into_iter().filter(|k| q == 0 || *k == 1).collect();
                check(r.len() == want.len(), "query-complete");
                for k in want { check(r.iter().any(|g| g.pubkey == key(k as u8) && id(g) == now[k]), "query-current") }
            }
            _ => {
                let k = if bools("which") { 3 } else { 1 };
                let l = u64s("lamports"); assume(l > 0); let s = slots[k] + 1;
                now[k] = 10 + 4 * e as u8 + k as u8; lam[k] = l; slots[k] = s;
                let a = state(k as u8, if k == 1 { 2 } else { 3 }, now[k], s, l);
                { let mut c = src.chain.lock().unwrap(); let i = (k - 1) / 2; c[i] = a.clone(); }
                let tracked = filters.satisfies(&a);
                let r = od.update_account(a, Commitment::Finalized);
                check(r == tracked || r && stored[k], "update-of-tracked");
                if r { stored[k] = true }
            }
        }
        check(src.subs.load(SeqCst) == subs && src.snaps.load(SeqCst) == snaps, "subscribed-only-when-needed");
    }
    obs("subs", subs); obs("snaps", snaps);
}
fn history_3() { history(3) }
fn history_4() { history(4) }
fn history_5() { history(5) }
/// Two requests for the same missing thing at the same time.
fn two(kind: u64) {
    let fail = if kind == 2 { 1 } else { 0 };
    // 2: the second request is for a part of the accounts of the first
    let what = choose("what", 3); let c = choose("level", 3);
    let l = u64s("lamports"); assume(l > 0);
    for _ in 0..loops() {
        let src = Source::new(0, fail, vec![state(1, 2, 1, 5, l), state(3, 3, 3, 5, l)], false);
        let (_, od) = setup(&src);
        ctx("two-requests"); sched(true);
        // 1: everything; 0: nothing; 2: a part; 3 and more: errors
        let run = |od: Arc<AccountsOnDemand>, narrow: bool| move || { sched(true);
            let x = if what == 0 { match od.get_account(key(1), commitment(c)) { Ok(Some(a)) => if id(&a) == 1 { 1 } else { 2 }, Ok(None) => 0, Err(AccountLoadingError::ErrorCreatingSnapshot) => 3, Err(_) => 4 } }
                else { let f = if narrow { Some(vec![AccountFilterType::Datasize(2)]) } else { None }; match od.get_program_accounts(prog(0), f, commitment(c)) { Ok(v) => if v.len() == if narrow { 1 } else { 2 } { 1 } else { v.len() * 100 }, Err(AccountLoadingError::ErrorCreatingSnapshot) => 3, Err(_) => 4 } };
            sched(false); x };
        let t1 = std::thread::spawn(run(od.clone(), false)); let t2 = std::thread::spawn(run(od.clone(), what == 2));
        let (a, b) = (t1.join().unwrap(), t2.join().unwrap()); sched(false);
        let (subs, snaps) = (src.subs.load(SeqCst), src.snaps.load(SeqCst));
        if kind == 2 {
            // the first load fails, its requests are told; a later one tries again (or finds what the failed load had delivered)
            check((a == 3 || b == 3) && (a == 3 || a == 1) && (b == 3 || b == 1), "failure-reported");
            check(snaps <= 2 && subs == snaps, "loaded-again-once");
        } else { check(a == 1 && b == 1, "both-get-the-loaded-state"); check(subs == snaps && (subs == 1 || what == 2 && subs == 2), "loaded-once") }
    }
}
/// Two different requests, or a request and an update, at the same time.
fn mixed(firsts: &[u64], seconds: &[u64]) {
    let (x, y) = (pick("first", firsts), pick("second", seconds)); let c = choose("level", 3);
    let (l, m) = (u64s("lamports"), u64s("lamports")); assume((l > 0) & (m > 0));
    let size = || Some(vec![AccountFilterType::Datasize(2)]);
    for _ in 0..loops() {
        let src = Source::new(0, 0, vec![state(1, 2, 1, 5, l), state(3, 3, 3, 5, l)], false);
        let (filters, od) = setup(&src);
        ctx("two-requests"); sched(true);
        // what a request gives: bit n for the state numbered n
        let run = |i: u64, od: Arc<AccountsOnDemand>, src: Arc<Source>| move || { sched(true);
            let get = |k: u8| match od.get_account(key(k), commitment(c)) { Ok(a) => a.map_or(0, |a| 1u64 << id(&a)), Err(_) => 1 };
            let ask = |f| match od.get_program_accounts(prog(0), f, commitment(c)) { Ok(v) => v.iter().map(|a| 1u64 << id(a)).sum(), Err(_) => 1 };
            let r = match i { 0 => get(1), 1 => get(3), 2 => get(2), 3 => ask(None), 4 => ask(size()),
                5 | 6 => { let a = if i == 5 { state(1, 2, 11, 6, m) } else { state(3, 3, 13, 6, m) }; { src.chain.lock().unwrap()[i as usize - 5] = a.clone(); } od.update_account(a, Commitment::Finalized); 0 }
                _ => { od.process_slot_data(SlotInfo { slot: 7, parent: 6, root: 0 }, Commitment::Finalized); 0 } };
            sched(false); r };
        let t1 = std::thread::spawn(run(x, od.clone(), src.clone())); let t2 = std::thread::spawn(run(y, od.clone(), src.clone()));
        let (a, b) = (t1.join().unwrap(), t2.join().unwrap()); sched(false);
        let new = |k: u64| x == 4 + (k + 1) / 2 || y == 4 + (k + 1) / 2;
        let one = |r: u64, k: u64| r == 1 << k || new(k) && r == 1 << (10 + k);
        for (i, r) in [(x, a), (y, b)] {
            let (p, q) = (r & (1 << 1 | 1 << 11), r & !(1u64 << 1 | 1 << 11));
            check(match i { 0 | 4 => one(r, 1), 1 => one(r, 3), 3 => one(p, 1) && one(q, 3), _ => r == 0 }, "state-of-the-cluster");
        }
        // afterwards everything asked for is there, in its last state
        let last = |k: u64| if new(k) { 10 + k } else { k };
        let requests = [x, y].iter().filter(|i| **i < 5).count() as u64;
        let (subs, snaps) = (src.subs.load(SeqCst), src.snaps.load(SeqCst));
        check(subs == snaps && subs >= 1 && subs <= requests, "loaded-once");
        for i in [x, y] {
            match i { 0 | 1 => { let k = 2 * i + 1; let g = od.get_account(key(k as u8), commitment(c)).unwrap(); check(g.as_ref().map(|g| id(g) as u64) == Some(last(k)), "last-state"); let g = g.unwrap(); check(g.account.lamports == if new(k) { m } else { l }, "last-fields") }
                2 => { check(od.get_account(key(2), commitment(c)).unwrap().is_none(), "missing"); check(filters.contains_account(key(2)), "account-filter-added") }
                3 | 4 => { let v: Vec<u64> = od.get_program_accounts(prog(0), if i == 3 { None } else { size() }, commitment(c)).unwrap().iter().map(|a| id(a) as u64).collect(); check(v.len() == if i == 3 { 2 } else { 1 } && v.contains(&last(1)) && (i == 4 || v.contains(&last(3))), "last-states") }
                _ => {} }
        }
        check(src.subs.load(SeqCst) == subs, "loaded-once"); reach("both-answered");
    }
}
fn mix_req() { mixed(&[0, 1], &[1, 2, 3, 4]) }
fn mix_upd() { mixed(&[0, 1, 3, 4], &[5, 6, 7]) }
/// Besides loading what is missing it behaves as the store behind it.
fn pass_through(n: usize) {
    use crate::astore::{info, tree};
    let src = Source::new(0, 0, vec![], false);
    let f = Arc::new(MutableFilterStore::default()); f.add_account_filters(&vec![AccountFilter { accounts: vec![], program_id: Some(prog(0)), filters: None }]);
    let st: Arc<dyn AccountStorageInterface> = Arc::new(InmemoryAccountStore::new(f.clone()));
    let twin = InmemoryAccountStore::new(f.clone());
    let od = AccountsOnDemand::new(src.clone(), f, st);
    let mut t = tree(2);
    let same = |a: &AccountData, b: &AccountData| { check((a.account.lamports == b.account.lamports) & (a.updated_slot == b.updated_slot) & (a.write_version == b.write_version), "same-fields"); check(a.pubkey == b.pubkey && id(a) == id(b), "same-state") };
    let same_all = |a: Vec<AccountData>, b: Vec<AccountData>| { check(a.len() == b.len(), "same-accounts"); for x in &b { let l: Vec<_> = a.iter().filter(|y| y.pubkey == x.pubkey).collect(); check(l.len() == 1, "same-accounts"); same(l[0], x) } };
    for e in 0..n {
        let s = choose("slot", 2) as usize;
        match choose("op", 4) {
            0 => { let l = u64s("lamports"); assume(l > 0); let a = state(1, 2, 1 + e as u8, t.val[s], l); let c = choose("level", 3); check(od.update_account(a.clone(), commitment(c)) == twin.update_account(a, commitment(c)), "same-update") }
            1 => { let c = choose("level", 3); assume(c == 0 || t.compatible(s)); if c > 0 { t.raise(s, c) } same_all(od.process_slot_data(info(&t, s), commitment(c)), twin.process_slot_data(info(&t, s), commitment(c))) }
            2 => { let l = u64s("lamports"); assume(l > 0); let a = state(2, 2, 1 + e as u8, t.val[s], l); od.initilize_or_update_account(a.clone()); twin.initilize_or_update_account(a) }
            _ => {
                let other = InmemoryAccountStore::new(Arc::new({ let mut f = lite_account_manager_common::simple_filter_store::SimpleFilterStore::default(); f.add_account_filters(&vec![AccountFilter { accounts: vec![], program_id: Some(prog(0)), filters: None }]); f }));
                other.initilize_or_update_account(state(2, 2, 90, t.val[s], 7));
                let b = other.create_snapshot(prog(0)).unwrap();
                check(od.load_from_snapshot(prog(0), b.clone()).is_ok() && twin.load_from_snapshot(prog(0), b).is_ok(), "same-load");
                check(od.load_from_snapshot(prog(0), vec![1]).is_err(), "same-load-error"); reach("loaded-snapshot");
            }
        }
    }
    for c in 0..3 {
        for k in 1..3 { match (od.get_account(key(k), commitment(c)).unwrap(), twin.get_account(key(k), commitment(c)).unwrap()) { (None, None) => {} (Some(a), Some(b)) => same(&a, &b), _ => check(false, "same-read") } }
        same_all(od.get_program_accounts(prog(0), None, commitment(c)).unwrap(), twin.get_program_accounts(prog(0), None, commitment(c)).unwrap());
    }
    let fresh = InmemoryAccountStore::new({ let f = Arc::new(MutableFilterStore::default()); f.add_account_filters(&vec![AccountFilter { accounts: vec![], program_id: Some(prog(0)), filters: None }]); f });
    check(fresh.load_from_snapshot(prog(0), od.create_snapshot(prog(0)).unwrap()).is_ok(), "snapshot-loads");
    same_all(fresh.get_program_accounts(prog(0), None, Commitment::Finalized).unwrap(), twin.get_program_accounts(prog(0), None, Commitment::Finalized).unwrap());
    check(od.create_snapshot(prog(1)).is_err() == twin.create_snapshot(prog(1)).is_err(), "snapshot-of-another-program");
    obs("n", twin.get_program_accounts(prog(0), None, Commitment::Processed).unwrap().len() as u64);
}
/// The state changes further while it is being loaded: every request is answered at its own level, the loading one too.
fn during() {
    let (l, m) = (u64s("lamports"), u64s("lamports")); assume(l > 0);
    let (s, u) = (u64s("slot"), u64s("slot")); assume((s > 0) & (s < u) & (u < 1 << 60));
    // the change comes before or after the loaded state, its slot is confirmed or finalized or not
    let first = bools("change-first"); let promoted = choose("promoted", 3); let kind = choose("request", 3); let c = choose("level", 3); let again = choose("again", 3);
    let gone = bools("closed"); assume(gone == (m == 0)); let changed = bools("changed");
    let src = Source::new(0, 0, vec![state(1, 2, 1, s, l), state(3, 3, 3, s, l)], false);
    let (_, od) = setup(&src);
    { let mut v = src.live.lock().unwrap();
      if !first { v.push(Live::Deliver) }
      if changed { v.push(Live::Update(state(1, 2, 9, u, m), Commitment::Processed)) }
      for k in 1..=promoted { v.push(Live::Slot(SlotInfo { slot: u, parent: s, root: 0 }, commitment(k))) }
      if first { v.push(Live::Deliver) } }
    for c in [c, again] {
        let new = changed && promoted >= c;
        // requests for the account, its program, or its program and its length
        let got: Vec<AccountData> = match kind { 0 => { let r = od.get_account(key(1), commitment(c)); check(r.is_ok(), "read-ok"); r.unwrap().into_iter().collect() }
            k => { let f = if k == 1 { None } else { Some(vec![AccountFilterType::Datasize(2)]) }; let r = od.get_program_accounts(prog(0), f, commitment(c)); check(r.is_ok(), "query-ok"); let v = r.unwrap(); check(v.iter().filter(|g| g.pubkey != key(1)).count() == (k == 1) as usize, "query-complete"); v.into_iter().filter(|g| g.pubkey == key(1)).collect() } };
        // the store does not remember an account whose end is final (known finding)
        if changed && gone && first && promoted == 2 { check(got.is_empty(), "closed-before-loaded"); continue }
        check(got.len() == !(new && gone) as usize, "answered-at-the-level-asked");
        if let Some(g) = got.first() { check(id(g) == if new { 9 } else { 1 }, "answered-at-the-level-asked"); check((g.account.lamports == if new { m } else { l }) & (g.updated_slot == if new { u } else { s }), "read-fields"); if new { reach("changed-while-loading") } }
    }
    check(src.subs.load(SeqCst) == 1 && src.snaps.load(SeqCst) == 1, "loaded-once");
    obs("promoted", promoted);
}
/// 300 accounts and 40 programs, asked for one after another, then all again.
fn many() {
    let n = 300usize; let l = u64s("lamports"); assume(l > 0); let c = choose("level", 3);
    let k2 = |i: usize| { let mut b = [3u8; 32]; b[0] = i as u8; b[1] = (i >> 8) as u8; Pubkey::new_from_array(b) };
    let missing = |i: usize| i % 10 == 3;
    let fails = pick("failing", &[u64::MAX, 0, 63]);
    let src = Source::new(0, if fails == u64::MAX { 0 } else { 1 << fails }, (0..n).filter(|i| !missing(*i)).map(|i| acc_data(k2(i), acct(l, unc(vec![i as u8, i as u8]), k2(1000 + i % 40)), 5, 1)).collect(), false);
    let (filters, od) = setup(&src);
    for round in 0..2 { for i in 0..n {
        let r = od.get_account(k2(i), commitment(c));
        if round == 0 && i as u64 == fails { check(matches!(r, Err(AccountLoadingError::ErrorCreatingSnapshot)), "snapshot-error"); continue }
        check(r.is_ok(), "read-ok"); let r = r.unwrap(); check(r.is_some() != missing(i), "read-present"); if let Some(a) = r { check(a.pubkey == k2(i) && id(&a) == i as u8, "read-current"); if i % 50 == 1 { check(a.account.lamports == l, "read-fields") } }
        check(filters.contains_account(k2(i)), "account-filter-added");
    } }
    let extra = (fails != u64::MAX) as u64; let subs = src.subs.load(SeqCst);
    // what a failed load had delivered does not have to be loaded again
    check(subs == n as u64 || subs == n as u64 + extra, "subscribed-only-when-needed");
    for _ in 0..2 { for p in 0..40 { let r = od.get_program_accounts(k2(1000 + p), None, commitment(c)); check(r.is_ok(), "query-ok"); let v = r.unwrap(); check(v.len() == (0..n).filter(|i| i % 40 == p && !missing(*i)).count() && v.iter().all(|a| a.account.owner == k2(1000 + p)), "query-complete") } }
    check(src.subs.load(SeqCst) == subs + 40, "subscribed-only-when-needed"); reach("loaded"); obs("subs", subs);
}
fn pass_3() { pass_through(3) }
fn two_ok() { two(0) }
fn two_fail() { two(2) }
/// A load that takes too long: the waiting request is told, the loading one still gets its answer.
fn slow() {
    let what = choose("what", 2);
    let src = Source::new(0, 0, vec![state(1, 2, 1, 5, 1), state(3, 3, 3, 5, 1)], true);
    let (_, od) = setup(&src);
    let run = |od: Arc<AccountsOnDemand>| move || if what == 0 { match od.get_account(key(1), Commitment::Processed) { Ok(Some(_)) => 1, Ok(None) => 0, Err(AccountLoadingError::OperationTimeOut) => 3, Err(_) => 4 } }
        else { match od.get_program_accounts(prog(0), None, Commitment::Processed) { Ok(v) => match v.len() { 2 => 1, _ => 0 }, Err(AccountLoadingError::OperationTimeOut) => 3, Err(_) => 4 } };
    let t1 = std::thread::spawn(run(od.clone()));
    while src.snaps.load(SeqCst) == 0 { std::thread::yield_now() }
    let b = run(od.clone())();
    check(b == 3, "waiting-request-times-out");
    let g = src.gate.as_ref().unwrap(); *g.0.lock().unwrap() = true; g.1.notify_all();
    check(t1.join().unwrap() == 1, "loading-request-answered");
    check(run(od)() == 1 && src.subs.load(SeqCst) == 1, "loaded-afterwards");
}
crate::harnesses! { T; h_od3 => history_3, h_od4 => history_4, h_od5 => history_5, h_od_pass => pass_3, h_od_two => two_ok, h_od_fail => two_fail, h_od_slow => slow, h_od_during => during, h_od_many => many, h_od_mix => mix_req, h_od_mix3 => mix_req, h_od_mixu => mix_upd }
