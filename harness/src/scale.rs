//! Long chains of slots, many accounts, many filters: few symbolic values, sizes beyond those of the other harnesses.
use crate::{astore::store_for, token::*, tstore::{tok_store, wallet}, util::*};
use lite_account_manager_common::{except_filter_store::ExceptFilterStore, mutable_filter_store::MutableFilterStore, simple_filter_store::SimpleFilterStore};

fn k2(i: usize) -> Pubkey { let mut b = [3u8; 32]; b[8] = i as u8; b[9] = (i >> 8) as u8; Pubkey::new_from_array(b) }
fn num(a: &AccountData) -> usize { let d = a.account.data.data(); d[0] as usize | (d[1] as usize) << 8 }
fn st_of(k: usize, id: usize, owner: Pubkey, lamports: u64, slot: u64) -> AccountData { acc_data(k2(k), acct(lamports, unc(vec![id as u8, (id >> 8) as u8, k as u8]), owner), slot, 1) }

const N: usize = 2100;
/// A chain of N slots: account 0 changes in one of them, account 1 in every one, account 2 in the first and on a fork.
fn deep() {
    let st = store_for(&[prog(0)]);
    let base = pick("base", &[1usize, 1 << 40]) as u64;
    let val = |i: usize| base + 3 * i as u64;
    let p = pick("changed-in", &[0usize, 5, 1065, N - 1]);
    let lam = u64s("lamports"); assume(lam > 0);
    let fork = 20usize;
    let info = |i: usize| SlotInfo { slot: val(i), parent: if i == 0 { base - 1 } else { val(i - 1) }, root: 0 };
    let backwards = bools("backwards");
    for i in 0..N { let i = if backwards { N - 1 - i } else { i };
        check(st.process_slot_data(info(i), Commitment::Processed).is_empty(), "processed-promotes-nothing");
        if i == p { check(st.update_account(st_of(0, i, prog(0), lam, val(i)), Commitment::Processed), "update-stored") }
        check(st.update_account(st_of(1, i, prog(0), lam, val(i)), Commitment::Processed), "update-stored");
        if i == 0 { st.update_account(st_of(2, 0, prog(0), lam, val(0)), Commitment::Processed); }
        if i == fork { st.process_slot_data(SlotInfo { slot: val(fork) + 1, parent: val(fork - 1), root: 0 }, Commitment::Processed); st.update_account(st_of(2, 99, prog(0), lam, val(fork) + 1), Commitment::Processed); }
    }
    let see = |lo: [Option<usize>; 2]| for (c, at) in [(1u64, lo[0]), (2, lo[1])] {
        let want: Vec<Option<usize>> = vec![at.filter(|x| *x >= p).map(|_| p), at, at.map(|_| 0)];
        for k in 0..3 { let g = st.get_account(k2(k), commitment(c)).unwrap(); check(g.as_ref().map(num) == want[k], "read-newest"); if let Some(g) = g { check((g.account.lamports == lam) & (g.updated_slot == val(want[k].unwrap())), "read-fields") } }
        let q = st.get_program_accounts(prog(0), None, commitment(c)).unwrap();
        check(q.len() == want.iter().flatten().count() && q.iter().all(|x| (0..3).any(|k| x.pubkey == k2(k) && Some(num(x)) == want[k])), "program-query");
    };
    let told = |l: Vec<AccountData>, before: Option<usize>, now: usize| {
        let mut want = vec![];
        if before.map_or(true, |b| b < now) { want.push((1, now)); if before.is_none() { want.push((2, 0)) } if now >= p && before.map_or(true, |b| b < p) { want.push((0, p)) } }
        check(l.len() == want.len() && want.iter().all(|(k, id)| l.iter().any(|x| x.pubkey == k2(*k) && num(x) == *id)), "promotion-list"); };
    let a = pick("confirmed", &[1usize, 1067]);
    told(st.process_slot_data(info(a), Commitment::Confirmed), None, a); see([Some(a), None]);
    told(st.process_slot_data(info(N - 1), Commitment::Confirmed), Some(a), N - 1); see([Some(N - 1), None]);
    let f = pick("finalized", &[0usize, 1066, N - 1]);
    told(st.process_slot_data(info(f), Commitment::Finalized), None, f); see([Some(N - 1), Some(f)]);
    told(st.process_slot_data(info(N - 1), Commitment::Finalized), Some(f), N - 1); see([Some(N - 1), Some(N - 1)]);
    check(st.get_account(k2(1), Commitment::Processed).unwrap().map(|x| num(&x)) == Some(N - 1), "read-newest");
    reach("finalized"); obs("p", p as u64);
}
/// 2100 accounts of a program: all of them are promoted, listed, and brought along by a snapshot.
fn many() {
    let n = 2100usize; let st = store_for(&[prog(0), prog(1)]);
    let lam = u64s("lamports"); let s = u64s("slot"); assume((s > 0) & (s < 1 << 60));
    let odd = pick("odd-one", &[0usize, 128, 2098]);
    let direct = choose("level", 3);
    for i in 0..n { check(st.update_account(st_of(i, i, if i == odd { prog(1) } else { prog(0) }, if i == odd + 1 { lam } else { 5 }, s), commitment(direct)), "update-stored") }
    if direct < 2 {
        let l = st.process_slot_data(SlotInfo { slot: s, parent: s - 1, root: 0 }, Commitment::Finalized);
        check(l.len() == n, "promotion-list");
        let mut seen = vec![false; n]; for x in &l { seen[num(x)] = true } check(seen.iter().all(|x| *x), "promotion-list");
    }
    let see = |st: &dyn AccountStorageInterface, c: Commitment, other: bool| for p in 0..2u8 {
        let q = st.get_program_accounts(prog(p), None, c).unwrap();
        let mut seen = vec![0u8; n]; for x in &q { let i = num(x); check(x.pubkey == k2(i) && x.account.owner == prog(p), "query-member"); seen[i] += 1 }
        for i in 0..n { let mut want = (i == odd) == (p == 1) && (p == 0 || other); if i == odd + 1 { want &= lam > 0 } check(seen[i] == want as u8, "query-complete") }
    };
    for c in 0..3 { see(&st, commitment(c), true) }
    let dst = store_for(&[prog(0), prog(1)]);
    check(dst.load_from_snapshot(prog(0), st.create_snapshot(prog(0)).unwrap()).is_ok(), "snapshot-loads");
    see(&dst, Commitment::Finalized, false); see(&dst, Commitment::Processed, false);
    reach("all-listed"); obs("odd", odd as u64);
}
/// 400 filters: listed accounts and programs by size or byte.
fn filters() {
    let n = 400usize; let x = u8s("x");
    let fs: Vec<AccountFilter> = (0..n).map(|i| match i % 4 {
        0 => AccountFilter { accounts: vec![k2(i), k2(i + 1000)], program_id: None, filters: None },
        1 => AccountFilter { accounts: vec![], program_id: Some(k2(3000 + i)), filters: None },
        2 => AccountFilter { accounts: vec![], program_id: Some(prog(0)), filters: Some(vec![AccountFilterType::Datasize(i as u64)]) },
        _ => AccountFilter { accounts: vec![], program_id: Some(prog(1)), filters: Some(vec![memcmp(1, MemcmpFilterData::Bytes(vec![i as u8, x]))]) },
    }).collect();
    let mut simple = SimpleFilterStore::default(); let mutable = MutableFilterStore::default(); let mut except = ExceptFilterStore::default();
    if bools("one-by-one") { for f in &fs { simple.add_account_filters(&vec![f.clone()]); mutable.add_account_filters(&vec![f.clone()]); except.add_account_filters(&vec![f.clone()]) } }
    else { simple.add_account_filters(&fs); mutable.add_account_filters(&fs); except.add_account_filters(&fs) }
    let i = pick("of", &[0usize, 1, 2, 3, 396, 397, 398, 399]); let hit = bools("hit"); let y = u8s("y");
    let (a, q, want) = match i % 4 {
        0 => { let k = if hit { k2(i + 1000) } else { k2(i + 2000) }; (acc_data(k, acct(1, unc(vec![]), prog(50)), 1, 1), AccountFilter { accounts: vec![k], program_id: None, filters: None }, hit) }
        1 => { let p = k2(if hit { 3000 + i } else { 4001 }); (acc_data(k2(7), acct(1, unc(vec![]), p), 1, 1), AccountFilter { accounts: vec![], program_id: Some(p), filters: None }, hit) }
        2 => { let l = i + !hit as usize; (acc_data(k2(7), acct(1, unc(vec![9; l]), prog(0)), 1, 1), AccountFilter { accounts: vec![], program_id: Some(prog(0)), filters: Some(vec![AccountFilterType::Datasize(l as u64)]) }, hit) }
        _ => { let b = i as u8 - !hit as u8; (acc_data(k2(7), acct(1, unc(vec![0, b, y]), prog(1)), 1, 1), AccountFilter { accounts: vec![], program_id: Some(prog(1)), filters: Some(vec![memcmp(1, MemcmpFilterData::Bytes(vec![b, y]))]) }, hit && x == y) }
    };
    check(simple.satisfies(&a) == want && mutable.satisfies(&a) == want && except.satisfies(&a) != want, "accepted");
    check(simple.contains_filter(&q) == want && mutable.contains_filter(&q) == want, "covered");
    if want { check(!except.contains_filter(&q), "excluded-is-not-covered"); reach("accepted") }
    obs("want", want as u64);
}
/// Token accounts: two thirds share their leading bytes.
fn k3(i: usize) -> Pubkey { let mut b = k2(i).to_bytes(); if i % 3 == 0 { b[0] = i as u8; b[1] = (i >> 8) as u8 } Pubkey::new_from_array(b) }
fn tid(a: &AccountData) -> usize { let d = a.account.data.data(); d[64] as usize | (d[65] as usize) << 8 }
fn tok(k: usize, id: usize, m: usize, o: u64, amount: u64, slot: u64) -> AccountData { tdata(k3(k), 0, 1_000_000_000, tok_bytes(k2(5000 + m), wallet(o), (amount << 16) | id as u64, 1, None, None, None), slot, 1) }
/// The token store on a chain of N slots.
fn tdeep() {
    let st = tok_store();
    let base = pick("base", &[1usize, 1 << 40]) as u64;
    let val = |i: usize| base + 3 * i as u64;
    let p = pick("changed-in", &[0usize, 5, 1065, N - 1]);
    let am = u64s("amount");
    let fork = 20usize;
    let info = |i: usize| SlotInfo { slot: val(i), parent: if i == 0 { base - 1 } else { val(i - 1) }, root: 0 };
    let backwards = bools("backwards");
    for i in 0..N { let i = if backwards { N - 1 - i } else { i };
        st.process_slot_data(info(i), Commitment::Processed);
        if i == p { check(st.update_account(tok(0, i, 0, 0, am, val(i)), Commitment::Processed), "update-stored") }
        check(st.update_account(tok(1, i, 0, 0, am, val(i)), Commitment::Processed), "update-stored");
        if i == 0 { st.update_account(tok(2, 0, 0, 0, am, val(0)), Commitment::Processed); }
        if i == fork { st.process_slot_data(SlotInfo { slot: val(fork) + 1, parent: val(fork - 1), root: 0 }, Commitment::Processed); st.update_account(tok(2, 99, 0, 0, am, val(fork) + 1), Commitment::Processed); }
    }
    let f = vec![AccountFilterType::Datasize(165), memcmp(32, MemcmpFilterData::Bytes(wallet(0).to_bytes().to_vec()))];
    let see = |lo: [Option<usize>; 2]| for (c, at) in [(1u64, lo[0]), (2, lo[1])] {
        let want: Vec<Option<usize>> = vec![at.filter(|x| *x >= p).map(|_| p), at, at.map(|_| 0)];
        for k in 0..3 { let g = st.get_account(k3(k), commitment(c)).unwrap(); check(g.as_ref().map(tid) == want[k], "read-newest"); if let (0, Some(g)) = (k, g) { check(eqb(&g.account.data.data(), &tok(0, p, 0, 0, am, val(p)).account.data.data()), "read-data") } }
        let q = st.get_program_accounts(TP[0], Some(f.clone()), commitment(c)).unwrap();
        check(q.len() == want.iter().flatten().count() && q.iter().all(|x| (0..3).any(|k| x.pubkey == k3(k) && Some(tid(x)) == want[k])), "query-exact");
    };
    let a = pick("confirmed", &[1usize, 1067]);
    let l = st.process_slot_data(info(a), Commitment::Confirmed); check(l.iter().any(|x| x.pubkey == k3(1) && tid(x) == a) && l.len() == 1 + (a == p) as usize, "notified"); see([Some(a), None]);
    st.process_slot_data(info(N - 1), Commitment::Confirmed); see([Some(N - 1), None]);
    let fin = pick("finalized", &[0usize, 1066, N - 1]);
    let l = st.process_slot_data(info(fin), Commitment::Finalized);
    check(l.len() == 2 + (fin >= p) as usize && l.iter().all(|x| x.pubkey == k3(1) && tid(x) == fin || x.pubkey == k3(2) && tid(x) == 0 || x.pubkey == k3(0) && tid(x) == p), "notified-newest"); see([Some(N - 1), Some(fin)]);
    st.process_slot_data(info(N - 1), Commitment::Finalized); see([Some(N - 1), Some(N - 1)]);
    reach("finalized"); obs("p", p as u64);
}
/// 1100 token accounts of one owner, each of its own mint (1060 of them) or of the last one.
fn tmany() {
    let (n, mints) = (1100usize, 1060usize); let st = tok_store();
    let am = u64s("amount"); let m_of = |i: usize| if i < mints { i } else { mints - 1 };
    for i in 0..n { st.initilize_or_update_account(tok(i, i, m_of(i), 0, am, 0)) }
    let mint_of = |m: usize| tdata(k2(5000 + m), 0, 77, mint_bytes(None, m as u64, 6, true, None), 0, 1);
    for m in 0..mints { st.initilize_or_update_account(mint_of(m)) }
    let gone = pick("closed", &[0usize, 255, 256, 299]);
    check(st.update_account(acc_data(k3(gone), acct(0, unc(vec![]), Pubkey::default()), 5, 2), Commitment::Finalized), "closed");
    let by = |o: bool, m: Option<usize>| { let mut f = vec![AccountFilterType::Datasize(165)]; if o { f.push(memcmp(32, MemcmpFilterData::Bytes(wallet(0).to_bytes().to_vec()))) } if let Some(m) = m { f.push(memcmp(0, MemcmpFilterData::Bytes(k2(5000 + m).to_bytes().to_vec()))) } f };
    let see = |st: &dyn AccountStorageInterface| {
        let ask = |f: Vec<AccountFilterType>, want: &dyn Fn(usize) -> bool, what: &str| {
            let q = st.get_program_accounts(TP[0], Some(f), Commitment::Finalized).unwrap();
            let mut seen = vec![0u8; n];
            for x in &q { let i = tid(x); check(x.pubkey == k3(i), "query-data"); seen[i] += 1; if i % 50 == 5 || i == 256 { check(eqb(&x.account.data.data(), &tok(i, i, m_of(i), 0, am, 0).account.data.data()), "query-data") } }
            for i in 0..n { check(seen[i] == want(i) as u8, what) }
        };
        ask(by(true, None), &|i| i != gone, "query-by-owner");
        for m in [0usize, 255, 256, mints - 1] { ask(by(false, Some(m)), &|i| i != gone && m_of(i) == m, "query-by-mint"); ask(by(true, Some(m)), &|i| i != gone && m_of(i) == m, "query-by-both") }
        let q = st.get_program_accounts(TP[0], Some(vec![AccountFilterType::Datasize(82)]), Commitment::Finalized).unwrap();
        check(q.len() == mints && q.iter().all(|x| { let m = x.account.data.data()[36] as usize | (x.account.data.data()[37] as usize) << 8; x.pubkey == k2(5000 + m) }), "query-of-mints");
        for i in [gone, 1, 257] { check(st.get_account(k3(i), Commitment::Finalized).unwrap().as_ref().map(tid) == if i == gone { None } else { Some(i) }, "read") }
    };
    see(&st);
    if bools("snapshot") {
        let dst = tok_store(); dst.initilize_or_update_account(mint_of(mints - 1));
        check(dst.load_from_snapshot(TP[0], st.create_snapshot(TP[0]).unwrap()).is_ok(), "snapshot-loads");
        see(&dst); reach("restored")
    }
    obs("gone", gone as u64);
}
crate::harnesses! { T; h_deep => deep, h_many => many, h_many_filters => filters, h_tdeep => tdeep, h_tmany => tmany }
