//! Account data encodings and conversion to and from Solana accounts; which updates a store keeps.
use crate::util::*;
use lite_account_manager_common::{simple_filter_store::SimpleFilterStore, mutable_filter_store::MutableFilterStore};
use lite_account_storage::inmemory_account_store::InmemoryAccountStore;
use solana_sdk::account::Account as SolanaAccount;

fn same_kind(d: &Data, m: &CompressionMethod) -> bool { matches!((d, m), (Data::Uncompressed(_), CompressionMethod::None) | (Data::Lz4 { .. }, CompressionMethod::Lz4(_)) | (Data::Zstd { .. }, CompressionMethod::Zstd(_))) }
/// Whatever the encoding, the same bytes and the same length come back.
fn encodings() {
    let m = method(choose("method", 5));
    let size = choose("size", 7);
    let plain: Vec<u8> = match size { 5 => { let mut v = vec![0u8; 3000]; let n = v.len(); for i in [0, 1, 1500, n - 1] { v[i] = u8s("d") } v } 6 => { let mut v = vec![0u8; 10 * 1024 * 1024]; let n = v.len(); for i in [0, n / 2, n - 1] { v[i] = u8s("d") } v } n => bytes("d", n as usize) };
    let d = Data::new(&plain, m.clone());
    check(same_kind(&d, &m), "encoding-as-asked");
    check(d.len() == plain.len(), "length");
    check(d.is_empty() == plain.is_empty(), "emptiness");
    let b = d.data();
    check(b.len() == plain.len(), "bytes-length");
    if size > 0 && size < 5 { let i = u64s("index"); assume(i < size); check(b[i as usize] == plain[i as usize], "byte-at-any-index") }
    if size < 6 { check(eqb(&b, &plain), "bytes") } else { let n = b.len(); check((b[0] == plain[0]) & (b[n / 2] == plain[n / 2]) & (b[n - 1] == plain[n - 1]) & (b[n / 3] == 0), "bytes") }
    check(d.len() == plain.len() && d.data().len() == plain.len(), "reading-changes-nothing");
    obs_bytes("b", &b[..b.len().min(5)]);
}
/// A Solana account comes back unchanged.
fn solana_account() {
    let m = method(choose("method", 5)); let n = choose("len", 4) as usize;
    let x = SolanaAccount { lamports: u64s("lamports"), data: bytes("d", n), owner: prog(choose("owner", 2) as u8), executable: bools("exec"), rent_epoch: u64s("rent") };
    let a = Account::from_solana_account(x.clone(), m.clone());
    check(same_kind(&a.data, &m), "encoding-as-asked");
    check((a.lamports == x.lamports) & (a.rent_epoch == x.rent_epoch) & (a.executable == x.executable) & (a.owner == x.owner) & (a.data.len() == n), "stored-fields");
    let y = a.to_solana_account();
    check((y.lamports == x.lamports) & (y.rent_epoch == x.rent_epoch) & (y.executable == x.executable) & (y.owner == x.owner) & eqb(&y.data, &x.data), "round-trip");
    if n > 0 { let i = u64s("index"); assume(i < n as u64); check(y.data[i as usize] == x.data[i as usize], "byte-at-any-index") }
    let z = Account::from_solana_account(y, CompressionMethod::None);
    check((z.lamports == x.lamports) & (z.rent_epoch == x.rent_epoch) & (z.executable == x.executable) & (z.owner == x.owner) & eqb(&z.data.data(), &x.data), "again");
    obs("lamports", z.lamports);
}
/// Reencoding and binary serialization keep the account.
fn serialized() {
    let m = method(choose("method", 4)); let n = choose("len", 3) as usize;
    let plain = bytes("d", n);
    let a = AccountData { pubkey: key(3), account: Arc::new(Account { lamports: u64s("lamports"), data: Data::new(&plain, m.clone()), owner: prog(1), executable: bools("exec"), rent_epoch: u64s("rent") }), updated_slot: u64s("slot"), write_version: u64s("wv") };
    let b = bincode::serialize(&a).unwrap();
    let c: AccountData = bincode::deserialize(&b).unwrap();
    check((c.updated_slot == a.updated_slot) & (c.write_version == a.write_version) & (c.account.lamports == a.account.lamports) & (c.account.rent_epoch == a.account.rent_epoch) & (c.account.executable == a.account.executable) & (c.account.owner == a.account.owner) & (c.pubkey == a.pubkey), "serialized-fields");
    check(same_kind(&c.account.data, &m) && c.account.data.len() == n && eqb(&c.account.data.data(), &plain), "serialized-data");
    check(c == a, "serialized-equal");
    // equal states are equal in every part
    let mut o = c.clone(); let part = choose("part", 8);
    { let x = Arc::make_mut(&mut o.account); match part { 0 => o.pubkey = key(9), 1 => o.updated_slot = u64s("other"), 2 => x.lamports = u64s("other"), 3 => x.rent_epoch = u64s("other"), 4 => x.executable = !x.executable, 5 => x.owner = prog(5), 6 => x.data = Data::new(&vec![1; n + 1], m.clone()), _ => x.data = unc(vec![7; n + 2]) } }
    let same = match part { 1 => o.updated_slot == a.updated_slot, 2 => o.account.lamports == a.account.lamports, 3 => o.account.rent_epoch == a.account.rent_epoch, _ => false };
    check((o == a) == same && (a == o) == same, "different-is-not-equal");
    obs("lamports", c.account.lamports);
}

/// A store keeps an update iff it passes the filters or the account is tracked already.
fn admission(n: usize) {
    let size = u64s("fsize");
    let fs = vec![AccountFilter { accounts: vec![key(7)], program_id: None, filters: None }, AccountFilter { accounts: vec![], program_id: Some(prog(0)), filters: Some(vec![AccountFilterType::Datasize(size)]) }];
    let f: Arc<dyn AccountFiltersStoreInterface> = if choose("mutable", 2) == 1 { let m = MutableFilterStore::default(); m.add_account_filters(&fs); Arc::new(m) } else { let mut s = SimpleFilterStore::default(); s.add_account_filters(&fs); Arc::new(s) };
    let st = InmemoryAccountStore::new(f);
    let mut tracked = [false; 10];
    let mut shown: [[Option<(u64, u64, usize)>; 3]; 10] = [[None; 3]; 10];
    for i in 0..n {
        let k = [1u8, 7][choose("acct", 2) as usize];
        let (owner, len) = (choose("owner", 2) as u8, choose("len", 3));
        let (s, w, l) = (u64s("slot"), u64s("wv"), choose("level", 2));
        let lam = if choose("dead", 2) == 1 { 0 } else { let l = u64s("lamports"); assume(l > 0); l };
        let d = acc_data(key(k), acct(lam, unc(vec![i as u8; len as usize + 1]), prog(owner)), s, w);
        let passes = k == 7 || (owner == 0 && size == len + 1);
        let r = st.update_account(d, commitment(l));
        if !tracked[k as usize] { check(r == passes, "first-update-kept-iff-it-passes"); if passes { tracked[k as usize] = true; reach("kept") } else { reach("refused") } }
        check(st.account_store_contains_key(&key(k)) == tracked[k as usize], "tracked");
        if !tracked[k as usize] { for c in 0..3 { check(st.get_account(key(k), commitment(c)).unwrap().is_none(), "refused-not-readable") } continue }
        let mut changed = false;
        for c in 0..3u64 {
            let b = shown[k as usize][c as usize];
            let g = st.get_account(key(k), commitment(c)).unwrap();
            let now = g.map(|g| (g.updated_slot, g.write_version, g.account.data.data()[0] as usize));
            if now.map(|x| x.2) != b.map(|x| x.2) { changed = true }
            shown[k as usize][c as usize] = now;
        }
        check(r | !changed, "true-when-visible");
        // an update newer than everything shown so far is taken
        obs("r", r as u64);
    }
    check(st.get_account(key(5), Commitment::Processed).unwrap().is_none(), "unknown-account");
    for p in 0..2 { let r = st.get_program_accounts(prog(p), None, Commitment::Processed); check(matches!(r, Err(AccountLoadingError::ConfigDoesnotContainRequiredFilters)), "query-beyond-filters-refused") }
    let r = st.get_program_accounts(prog(0), Some(vec![AccountFilterType::Datasize(size)]), Commitment::Processed);
    check(r.is_ok(), "query-in-filters-answered");
    for a in r.unwrap() { check((a.account.data.len() as u64 == size) & (a.account.lamports > 0) & (a.account.owner == prog(0)), "query-result") }
}
fn admission_2() { admission(2) }
fn admission_3() { admission(3) }
/// The newest update is always taken, reported and shown; an initial load counts as final.
fn newest_taken() {
    let st = crate::astore::store_for(&[prog(0)]);
    let (s1, w1, s2, w2) = (u64s("slot"), u64s("wv"), u64s("slot"), u64s("wv"));
    let (l1, l2) = (choose("level", 3), choose("level", 3));
    let empty = choose("empty", 2) == 1;
    let d = |i: u8, s, w| acc_data(key(1), acct(8 + i as u64, unc(if empty { vec![] } else { vec![i] }), prog(0)), s, w);
    let first = |x: &dyn AccountStorageInterface| x.get_account(key(1), Commitment::Processed).unwrap().map(|a| a.account.lamports - 8);
    if choose("initial", 2) == 1 { assume(l1 == 2); st.initilize_or_update_account(d(1, s1, w1)) } else { check(st.update_account(d(1, s1, w1), commitment(l1)), "first-taken") }
    for c in 0..=l1 { check(st.get_account(key(1), commitment(c)).unwrap().is_some(), "first-shown") }
    for c in l1 + 1..3 { check(st.get_account(key(1), commitment(c)).unwrap().is_none(), "first-not-above-its-level") }
    let newer = crate::astore::newer((s2, w2), (s1, w1));
    let older = crate::astore::newer((s1, w1), (s2, w2));
    // the account may not match the filters any more: it is tracked, so the update still counts
    let moved = l2 < 2 && choose("moved", 2) == 1;
    let mut u2 = d(2, s2, w2);
    if moved { u2.account = Arc::new(acct(10, unc(if empty { vec![] } else { vec![2] }), prog(6))) }
    let r = st.update_account(u2, commitment(l2));
    if newer { check(r, "newer-reported"); for c in 0..=l2 { check(st.get_account(key(1), commitment(c)).unwrap().map(|a| a.account.lamports - 8) == Some(2), "newer-shown") } reach("newer") }
    if older { check(first(&st) == Some(1), "older-not-shown"); if l2 <= l1 { for c in 0..=l1 { check(st.get_account(key(1), commitment(c)).unwrap().map(|a| a.account.lamports - 8) == Some(1), "older-not-shown") } } reach("older") }
    obs("r", r as u64);
}
crate::harnesses! { T; h_enc => encodings, h_solana => solana_account, h_ser => serialized, h_adm2 => admission_2, h_adm3 => admission_3, h_newest => newest_taken }
