//! Program queries, snapshots, routing by program and concurrency of the account store.
use crate::astore::*;
use crate::util::*;
use lite_account_manager_common::{except_filter_store::ExceptFilterStore, simple_filter_store::SimpleFilterStore};
use lite_account_storage::{inmemory_account_store::InmemoryAccountStore, storage_by_program_id::StorageByProgramId};
use std::{collections::HashMap, sync::Mutex};

struct Acc { k: u8, owner: Pubkey, plain: Vec<u8>, lamports: u64, level: u64, data: AccountData }
fn mk_acc(k: u8, maxlen: u64, methods: u64, owners: u64) -> Acc {
    let n = choose("len", maxlen + 1) as usize;
    let plain = bytes("d", n);
    let m = if methods > 1 { method(choose("method", methods)) } else { CompressionMethod::None };
    let owner = prog(choose("owner", owners) as u8);
    let lamports = u64s("lamports");
    let level = choose("level", 3);
    let a = Account { lamports, data: Data::new(&plain, m), owner, executable: k == 2, rent_epoch: u64s("rent") };
    Acc { k, owner, plain, lamports, level, data: acc_data(key(k), a, u64s("slot"), u64s("wv")) }
}
/// A program query returns exactly the live accounts of the program that match every condition, with their plain data.
fn gpa(naccts: u8, methods: u64, nconds: u64) {
    let mut f = SimpleFilterStore::default();
    f.add_account_filters(&vec![AccountFilter { accounts: vec![], program_id: Some(prog(0)), filters: None }, AccountFilter { accounts: vec![key(9)], program_id: Some(prog(1)), filters: Some(vec![AccountFilterType::Datasize(1)]) }]);
    let st = InmemoryAccountStore::new(Arc::new(f));
    let accs: Vec<Acc> = (0..naccts).map(|i| mk_acc(i, 2, methods, 2)).collect();
    for a in &accs { let r = st.update_account(a.data.clone(), commitment(a.level)); check(r == (a.owner == prog(0) || a.plain.len() == 1), "admitted"); }
    let p = prog(choose("program", 3) as u8);
    let c = choose("level-asked", 3);
    let mut conds: Vec<AccountFilterType> = vec![];
    let mut spec: Vec<(u64, u64, Vec<u8>)> = vec![];
    for _ in 0..choose("nconds", nconds + 1) { if choose("kind", 2) == 0 { let s = u64s("size"); conds.push(AccountFilterType::Datasize(s)); spec.push((0, s, vec![])) } else { let o = u64s("off"); let b = bytes("pat", 1); conds.push(memcmp(o, MemcmpFilterData::Bytes(b.clone()))); spec.push((1, o, b)) } }
    let some = !conds.is_empty() || choose("some", 2) == 1;
    let q = if some { Some(conds) } else { None };
    let r = st.get_program_accounts(p, q, commitment(c));
    if p == prog(2) { check(matches!(r, Err(AccountLoadingError::ConfigDoesnotContainRequiredFilters)), "uncovered-program-refused"); return }
    if p == prog(1) {
        let mut has = false; for s in &spec { has |= s.0 == 0 && s.1 == 1 }
        check(r.is_ok() == has, "uncovered-conditions-refused");
    }
    let Ok(r) = r else { check(p == prog(1), "covered-program-answered"); return };
    let mut n = 0usize;
    for a in &accs {
        let admitted = a.owner == prog(0) || a.plain.len() == 1;
        let mut want = admitted && a.owner == p && a.level >= c;
        if want { let mut m = a.lamports > 0; for (k, x, b) in &spec { m &= if *k == 0 { *x == a.plain.len() as u64 } else { spec_memcmp(*x, b, &a.plain) } } want = m }
        if want { n += 1; reach("matched") }
        let got: Vec<&AccountData> = r.iter().filter(|x| x.pubkey == key(a.k)).collect();
        check(got.len() == want as usize, "query-member");
        if let Some(g) = got.first() {
            check(eqb(&g.account.data.data(), &a.plain), "query-data");
            check(g.account.data.len() == a.plain.len(), "query-data-len");
            check((g.account.lamports == a.lamports) & (g.account.rent_epoch == a.data.account.rent_epoch) & (g.updated_slot == a.data.updated_slot) & (g.write_version == a.data.write_version) & (g.account.executable == (a.k == 2)) & (g.account.owner == a.owner), "query-fields");
            let one = st.get_account(key(a.k), commitment(c));
            check(one.is_ok() && one.as_ref().unwrap().is_some(), "query-read-agree");
            if let Ok(Some(o)) = one { check(eqb(&o.account.data.data(), &a.plain) & (o.updated_slot == g.updated_slot) & (o.write_version == g.write_version) & (o.account.lamports == g.account.lamports), "query-read-agree-value") }
        }
    }
    check(r.len() == n, "query-count");
    obs("n", n as u64);
}
/// Accounts of realistic length and conditions on whole addresses.
fn gpa_long() {
    let st = store_for(&[prog(0)]);
    let len = pick("len", &[31usize, 33, 64]);
    let mut plain: Vec<u8> = (0..len).map(|i| 1 + (i / 32) as u8).collect(); for i in [0, 31, len - 1] { if i < len { plain[i] = u8s("d") } }
    let lamports = u64s("lamports");
    st.update_account(acc_data(key(1), acct(lamports, Data::new(&plain, method(choose("method", 2) * 3)), prog(0)), 5, 1), Commitment::Finalized);
    let mut conds: Vec<AccountFilterType> = vec![]; let mut want = lamports > 0;
    if bools("address") { let x = 1 + choose("block", 2) as u8; let o = u64s("off"); let mut pat = vec![x; 32]; if x == 1 { pat[0] = u8s("p") } pat[31] = u8s("p"); want &= spec_memcmp(o, &pat, &plain); conds.push(memcmp(o, MemcmpFilterData::Bytes(pat))) }
    if bools("size") { let s = u64s("size"); want &= s == len as u64; conds.insert(choose("front", 2) as usize * conds.len(), AccountFilterType::Datasize(s)) }
    if bools("byte") { let (o, b) = (u64s("off"), u8s("b")); want &= spec_memcmp(o, &[b], &plain); conds.push(memcmp(o, MemcmpFilterData::Bytes(vec![b]))) }
    let r = st.get_program_accounts(prog(0), Some(conds), commitment(choose("asked", 3))).unwrap();
    check(r.len() == want as usize, "query-member");
    if let Some(a) = r.first() { check(eqb(&a.account.data.data(), &plain) && a.account.data.len() == len, "query-data"); reach("matched") }
    obs("n", r.len() as u64);
}
/// An account that moves between tracked programs, changes its data or dies: at every level the query of a program lists it iff its state there belongs to the program, lives and matches.
fn gpa_moved() {
    let st = store_for(&[prog(0), prog(1)]);
    let (s1, w1, s2, w2) = (u64s("slot"), u64s("wv"), u64s("slot"), u64s("wv"));
    assume((s1 != s2) | (w1 != w2));
    let (l1, l2) = (choose("level", 3), choose("level", 3));
    let (o1, o2) = (choose("owner", 2) as u8, choose("owner", 2) as u8);
    let (d1, d2) = (u8s("d"), u8s("d"));
    let lam = u64s("lamports");
    let m = choose("stored", 3); let enc = |v: Vec<u8>| if m == 0 { unc(v) } else { Data::new(&v, method(2 * m - 1)) };
    st.update_account(acc_data(key(1), acct(9, enc(vec![d1]), prog(o1)), s1, w1), commitment(l1));
    let len2 = 1 + choose("len", 2) as usize;
    let r2 = acct(lam, enc(if len2 == 1 { vec![d2] } else { vec![d2, 0] }), prog(o2));
    st.update_account(acc_data(key(1), r2, s2, w2), commitment(l2));
    let sec_newer = newer((s2, w2), (s1, w1));
    let conds = match choose("conds", 4) { 0 => None, 1 => Some(vec![AccountFilterType::Datasize(1)]), 2 => Some(vec![memcmp(0, MemcmpFilterData::Bytes(vec![5]))]), _ => Some(vec![memcmp(0, MemcmpFilterData::Bytes(vec![5])), AccountFilterType::Datasize(1)]) };
    for c in 0..3u64 {
        let second = if l1 >= c && l2 >= c { sec_newer } else { l2 >= c };
        let some = l1 >= c || l2 >= c;
        for p in 0..2u8 {
            let q = st.get_program_accounts(prog(p), conds.clone(), commitment(c)).unwrap();
            let (o, live, d, len) = if second { (o2, lam > 0, d2, len2) } else { (o1, true, d1, 1) };
            let mut want = some & (o == p) & live;
            if let Some(f) = &conds { for f in f { want &= match f { AccountFilterType::Datasize(_) => len == 1, _ => d == 5 } } }
            check(q.len() == want as usize, "moved-member");
            if let Some(a) = q.first() { check((a.account.data.data()[0] == d) & (a.account.owner == prog(o)) & (a.updated_slot == if second { s2 } else { s1 }) & (a.write_version == if second { w2 } else { w1 }) & (a.account.lamports == if second { lam } else { 9 }), "moved-value"); reach("listed") }
        }
    }
}
fn gpa_plain() { gpa(2, 1, 1) }
fn gpa_compressed() { gpa(1, 5, 2) }

/// A snapshot of one store rebuilds the same finalized program accounts in an empty one.
fn snap_roundtrip() {
    let st = store_for(&[prog(0), prog(1)]);
    let accs: Vec<Acc> = (0..2).map(|i| mk_acc(i, 1, if i == 0 { 4 } else { 1 }, 2)).collect();
    for a in &accs { st.update_account(a.data.clone(), commitment(a.level)); }
    let s = st.create_snapshot(prog(0));
    check(s.is_ok(), "snapshot-created");
    let other = store_for(&[prog(0), prog(1)]);
    check(other.load_from_snapshot(prog(0), s.unwrap()).is_ok(), "snapshot-loaded");
    let mut n = 0;
    for c in 0..3 { for a in &accs {
        let want = a.owner == prog(0) && a.level == 2 && a.lamports > 0;
        let got = other.get_account(key(a.k), commitment(c)).unwrap();
        check(got.is_some() == want, "snapshot-has");
        if let Some(g) = got { n += 1;
            check((g.account.lamports == a.lamports) & (g.account.rent_epoch == a.data.account.rent_epoch) & (g.updated_slot == a.data.updated_slot) & (g.write_version == a.data.write_version) & (g.account.executable == (a.k == 2)) & (g.account.owner == a.owner) & eqb(&g.account.data.data(), &a.plain), "snapshot-fields") }
    } }
    check(other.get_program_accounts(prog(0), None, Commitment::Finalized).unwrap().len() * 3 == n, "snapshot-program");
    check(store_for(&[prog(1)]).create_snapshot(prog(0)).is_err(), "snapshot-of-uncovered-program");
    obs("n", n as u64);
}
/// Loading a snapshot never replaces newer state, and always brings in what is newer.
fn snap_newer() {
    let src = store_for(&[prog(0), prog(1)]);
    let (s1, w1) = (u64s("slot"), u64s("wv"));
    let d = |id: u8, owner: u8, s: u64, w: u64| acc_data(key(1), acct(5, unc(vec![id]), prog(owner)), s, w);
    src.update_account(d(1, 0, s1, w1), Commitment::Finalized);
    let bytes = src.create_snapshot(prog(0)).unwrap();
    let dst = store_for(&[prog(0), prog(1)]);
    let (s2, w2, l2) = (u64s("slot"), u64s("wv"), choose("level", 3));
    let o2 = choose("owner", 2) as u8;
    dst.update_account(d(2, o2, s2, w2), commitment(l2));
    assume((s1 != s2) | (w1 != w2));
    check(dst.load_from_snapshot(prog(0), bytes).is_ok(), "snapshot-loaded");
    for c in 0..3u64 {
        let r = dst.get_account(key(1), commitment(c)).unwrap();
        check(r.is_some(), "after-load-present");
        let id = r.as_ref().unwrap().account.data.data()[0];
        if l2 >= c { check((id == 2) == newer((s2, w2), (s1, w1)), "after-load-newest") } else { check(id == 1, "after-load-level") }
        for p in 0..2u8 { let q = dst.get_program_accounts(prog(p), None, commitment(c)).unwrap(); let own = r.as_ref().unwrap().account.owner == prog(p); check(q.len() == own as usize, "after-load-program") }
    }
}
/// Loading a snapshot of several accounts into a store that knows some of them and refuses others: each account is treated by itself.
fn snap_merge() {
    let src = store_for(&[prog(0)]);
    let d = |k: u8, id: u8, lam: u64, s: u64, w: u64| acc_data(key(k), acct(lam, unc(vec![id]), prog(0)), s, w);
    let (s, w) = (u64s("slot"), u64s("wv")); assume((s > 10) & (s < 1000) & (w > 10) & (w < 1000));
    for k in 0..3 { src.update_account(d(k, 1, 5, s, w), Commitment::Finalized); }
    let bytes = src.create_snapshot(prog(0)).unwrap();
    let refused = choose("refused", 4) as u8;
    let mut f = SimpleFilterStore::default();
    for k in 0..3 { if k != refused { f.add_account_filters(&vec![AccountFilter { accounts: vec![key(k)], program_id: None, filters: None }]) } }
    let dst = InmemoryAccountStore::new(Arc::new(f));
    let mut had = [0u64; 3]; let l = choose("level", 3);
    for k in 0..3u8 { if k != refused {
        had[k as usize] = choose("had", 4);
        let (vs, vw) = match had[k as usize] { 1 => (s - 1, w + 1), 2 => (s, w + 1), _ => (s + 1, w - 1) };
        if had[k as usize] > 0 { dst.update_account(d(k, 2, if k == 0 { 0 } else { 7 }, vs, vw), commitment(l)); }
    } }
    check(dst.load_from_snapshot(prog(0), bytes).is_ok(), "snapshot-loaded");
    for k in 0..3u8 { for c in 0..3u64 {
        let r = dst.get_account(key(k), commitment(c));
        if k == refused { check(!matches!(r, Ok(Some(_))), "refused-stays-out"); continue }
        let theirs = had[k as usize] > 1 && l >= c;
        let Ok(r) = r else { check(false, "merged-tracked"); continue };
        if theirs && k == 0 { check(r.is_none(), "merged-dead") ; continue }
        check(r.is_some(), "merged-present");
        if let Some(a) = r { check(a.account.data.data()[0] == if theirs { 2 } else { 1 }, "merged-value"); reach("merged") }
    } }
}
/// Bytes that are no snapshot are refused with an error.
fn snap_malformed() {
    let st = store_for(&[prog(0)]);
    st.update_account(acc_data(key(1), acct(5, unc(vec![1, 2]), prog(0)), 3, 4), Commitment::Finalized);
    let dst = store_for(&[prog(0)]);
    dst.update_account(acc_data(key(2), acct(6, unc(vec![3]), prog(0)), 3, 4), Commitment::Finalized);
    ctx("malformed-snapshot");
    let b = if choose("how", 2) == 0 {
        let b = st.create_snapshot(prog(0)).unwrap();
        let cut = choose("cut", b.len() as u64) as usize; b[..cut].to_vec()
    } else {
        let mut b = vec![0u8; 8]; b[0] = 1 + choose("count", 2) as u8; let n = choose("rest", 5) as usize; let m = bytes("junk", n); b.extend_from_slice(&m); b
    };
    check(matches!(dst.load_from_snapshot(prog(0), b), Err(AccountLoadingError::DeserializationIssues)), "malformed-refused");
    check(dst.get_account(key(2), Commitment::Finalized).unwrap().is_some() && dst.get_account(key(1), Commitment::Processed).unwrap().is_none(), "malformed-changes-nothing");
}
/// Corrupted counts and tags inside an otherwise valid snapshot never crash the store.
fn snap_corrupt() {
    let st = store_for(&[prog(0)]);
    st.update_account(acc_data(key(1), acct(5, unc(vec![1, 2]), prog(0)), 3, 4), Commitment::Finalized);
    let mut b = st.create_snapshot(prog(0)).unwrap();
    let dst = store_for(&[prog(0)]);
    // bytes 48..52 hold the kind of data, 52..60 its length
    let at = [0usize, 48, 52, 7, 59][choose("at", 5) as usize];
    let x = u8s("x"); b[at] = x;
    ctx("corrupt-snapshot");
    let r = dst.load_from_snapshot(prog(0), b);
    if r.is_err() { check(dst.get_account(key(1), Commitment::Finalized).unwrap().is_none(), "refused-changes-nothing") }
    obs("ok", r.is_ok() as u64);
}

/// A store that records what reaches it and answers as told.
#[derive(Default)]
struct Stub { log: Mutex<Vec<(u8, u64, u64)>>, holds: Option<(Pubkey, u64)>, fails: bool, accepts: bool, promotes: Vec<AccountData>, tag: u64 }
impl Stub { fn note(&self, op: u8, a: u64, b: u64) { self.log.lock().unwrap().push((op, a, b)) } fn count(&self, op: u8) -> usize { self.log.lock().unwrap().iter().filter(|x| x.0 == op).count() } fn last(&self, op: u8) -> (u64, u64) { let l = self.log.lock().unwrap(); let x = l.iter().filter(|x| x.0 == op).last().unwrap(); (x.1, x.2) } }
fn cn(c: Commitment) -> u64 { match c { Commitment::Processed => 0, Commitment::Confirmed => 1, Commitment::Finalized => 2 } }
impl AccountStorageInterface for Stub {
    fn update_account(&self, a: AccountData, c: Commitment) -> bool { self.note(0, a.updated_slot, cn(c)); self.accepts }
    fn initilize_or_update_account(&self, a: AccountData) { self.note(1, a.updated_slot, 0) }
    fn get_account(&self, k: Pubkey, c: Commitment) -> Result<Option<AccountData>, AccountLoadingError> {
        self.note(2, cn(c), 0);
        if self.fails { return Err(AccountLoadingError::OperationTimeOut) }
        Ok(self.holds.and_then(|(h, s)| if h == k { Some(acc_data(k, acct(1, unc(vec![]), prog(0)), s, self.tag)) } else { None }))
    }
    fn get_program_accounts(&self, p: Pubkey, f: Option<Vec<AccountFilterType>>, c: Commitment) -> Result<Vec<AccountData>, AccountLoadingError> {
        self.note(3, cn(c), f.as_ref().map_or(99, |f| f.len() as u64));
        if self.fails { return Err(AccountLoadingError::WrongIndex) }
        Ok(vec![acc_data(p, acct(1, unc(vec![]), p), self.tag, self.tag)])
    }
    fn process_slot_data(&self, s: SlotInfo, c: Commitment) -> Vec<AccountData> { self.note(4, s.slot ^ s.parent.rotate_left(7), cn(c)); self.promotes.clone() }
    fn create_snapshot(&self, _: Pubkey) -> Result<Vec<u8>, AccountLoadingError> { self.note(5, 0, 0); if self.fails { Err(AccountLoadingError::ErrorCreatingSnapshot) } else { Ok(vec![self.tag as u8]) } }
    fn load_from_snapshot(&self, _: Pubkey, s: Vec<u8>) -> Result<(), AccountLoadingError> { self.note(6, s.len() as u64, s[0] as u64); if self.fails { Err(AccountLoadingError::DeserializationIssues) } else { Ok(()) } }
}
fn stubs(n: usize) -> (Vec<Arc<Stub>>, StorageByProgramId, u64) {
    hash_orders(6);
    let holder = choose("holder", n as u64 + 2); // one store, or none
    let slot = u64s("held-slot");
    let v: Vec<Arc<Stub>> = (0..=n).map(|i| Arc::new(Stub { log: Mutex::new(vec![]), holds: if holder == i as u64 { Some((key(1), slot)) } else { None }, fails: holder != i as u64 && choose("fails", 2) == 1, accepts: choose("accepts", 2) == 1, promotes: vec![acc_data(key(10 + i as u8), acct(1, unc(vec![]), prog(0)), slot, i as u64); choose("promotes", 2) as usize], tag: i as u64 + 1 })).collect();
    let mut m: HashMap<Pubkey, Arc<dyn AccountStorageInterface>> = HashMap::new();
    for i in 0..n { m.insert(prog(i as u8), v[i].clone()); }
    let d = StorageByProgramId::new(m, v[n].clone());
    (v, d, holder)
}
/// Requests by program reach the store of that program (or the default) unchanged, and its answer comes back.
fn dispatch_program() {
    let n = 2; let (v, d, _) = stubs(n);
    let p = choose("program", n as u64 + 1) as usize;
    let c = choose("level", 3); let x = u64s("slot");
    let nf = choose("nfilters", 3);
    let f = if nf == 2 { None } else { Some(vec![AccountFilterType::Datasize(1); nf as usize]) };
    let r = d.get_program_accounts(prog(p as u8), f, commitment(c));
    check(r.is_err() == v[p].fails, "program-query-answer");
    if let Ok(r) = &r { check(r.len() == 1 && r[0].write_version == p as u64 + 1, "program-query-store") } else { check(matches!(r, Err(AccountLoadingError::WrongIndex)), "program-query-error") }
    d.initilize_or_update_account(acc_data(key(1), acct(1, unc(vec![]), prog(p as u8)), x, 0));
    let s = d.create_snapshot(prog(p as u8));
    check(s.is_err() == v[p].fails && (s.is_err() || s.as_ref().unwrap() == &vec![p as u8 + 1]), "snapshot-store");
    let l = d.load_from_snapshot(prog(p as u8), vec![33, 1, 2]);
    check(l.is_err() == v[p].fails, "load-answer");
    for i in 0..=n { for op in [1u8, 3, 5, 6] { check(v[i].count(op) == (i == p) as usize, "routed-to-one-store") } }
    check(v[p].last(1).0 == x, "initialize-arguments"); check(v[p].last(3) == (c, if nf == 2 { 99 } else { nf }), "query-arguments"); check(v[p].last(6) == (3, 33), "load-arguments");
}
/// Updates, slot notifications and reads by key consider every store.
fn dispatch_all() {
    let n = 2; let (v, d, holder) = stubs(n);
    let c = choose("level", 3); let (x, y) = (u64s("slot"), u64s("parent"));
    let r = d.update_account(acc_data(key(1), acct(1, unc(vec![]), prog(choose("owner", 3) as u8)), x, 0), commitment(c));
    check(r == v.iter().any(|s| s.accepts), "update-accepted");
    for s in &v { check(s.count(0) <= 1, "update-once"); if s.accepts { check(s.count(0) == 1 && s.last(0).0 == x && s.last(0).1 == c, "update-reaches-every-store-that-wants-it") } }
    let l = d.process_slot_data(SlotInfo { slot: x, parent: y, root: u64s("root") }, commitment(c));
    for s in &v { check(s.count(4) == 1, "slot-reaches-every-store-once"); let e = s.last(4); check((e.0 == (x ^ y.rotate_left(7))) & (e.1 == c), "slot-arguments") }
    check(l.len() == v.iter().map(|s| s.promotes.len()).sum::<usize>() && (0..=n).all(|i| l.iter().filter(|a| a.pubkey == key(10 + i as u8)).count() == v[i].promotes.len()), "slot-results");
    let g = d.get_account(key(1), commitment(c));
    if holder <= n as u64 { check(matches!(&g, Ok(Some(_))), "read-finds-holder"); if let Ok(Some(a)) = &g { check((a.updated_slot == v[holder as usize].holds.unwrap().1) & (a.write_version == holder + 1), "read-value") } } else { check(!matches!(&g, Ok(Some(_))), "read-nothing") }
    for s in &v { if s.count(2) > 0 { check(s.last(2).0 == c, "read-level") } }
}
/// The dispatcher over real stores: an account moving between programs is always found and is in the right program's list.
fn dispatch_real() {
    hash_orders(6);
    let mk = |p: u8| -> Arc<dyn AccountStorageInterface> { Arc::new(store_for(&[prog(p)])) };
    let mut e = ExceptFilterStore::default(); e.add_account_filters(&vec![AccountFilter { accounts: vec![], program_id: Some(prog(0)), filters: None }, AccountFilter { accounts: vec![], program_id: Some(prog(1)), filters: None }]);
    let mut m: HashMap<Pubkey, Arc<dyn AccountStorageInterface>> = HashMap::new(); m.insert(prog(0), mk(0)); m.insert(prog(1), mk(1));
    let d = StorageByProgramId::new(m, Arc::new(InmemoryAccountStore::new(Arc::new(e))));
    let (s1, s2) = (u64s("slot"), u64s("slot")); assume((s1 < s2) & (s2 < 1 << 60));
    let (o1, o2) = (choose("owner", 3) as u8, choose("owner", 3) as u8);
    let a = |id: u8, o: u8, s: u64| acc_data(key(1), acct(1, unc(vec![id]), prog(o)), s, id as u64);
    check(d.update_account(a(1, o1, s1), Commitment::Processed), "first-accepted");
    d.process_slot_data(SlotInfo { slot: s1, parent: 0, root: 0 }, Commitment::Finalized);
    check(d.update_account(a(2, o2, s2), Commitment::Processed), "second-accepted");
    let stage = choose("stage", 3);
    if stage > 0 { d.process_slot_data(SlotInfo { slot: s2, parent: s1, root: 0 }, commitment(stage)); }
    for c in 0..3u64 {
        let want = if c <= stage { (2u8, o2) } else { (1, o1) };
        for p in 0..3u8 { let q = d.get_program_accounts(prog(p), None, commitment(c)).unwrap(); check(q.len() == (want.1 == p) as usize, "moved-account-program"); if let Some(x) = q.first() { check(x.account.data.data()[0] == want.0, "moved-account-program-value") } }
        let g = d.get_account(key(1), commitment(c)).unwrap();
        check(g.is_some() && g.unwrap().account.data.data()[0] == want.0, "moved-account-read");
    }
}
crate::harnesses! { T;
    h_gpa => gpa_plain, h_gpa_long => gpa_long, h_gpa_comp => gpa_compressed, h_gpa_moved => gpa_moved, h_snap_rt => snap_roundtrip, h_snap_newer => snap_newer, h_snap_merge => snap_merge, h_snap_bad => snap_malformed, h_snap_corrupt => snap_corrupt,
    h_disp_prog => dispatch_program, h_disp_all => dispatch_all, h_disp_real => dispatch_real,
}
