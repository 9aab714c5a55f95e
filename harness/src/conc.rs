//! Two threads on one store: no deadlock, and the outcome is that of one of the two orders.
use crate::astore::*;
use crate::util::*;
use lite_account_storage::inmemory_account_store::InmemoryAccountStore;

#[derive(Clone, Copy)]
struct Ctx { s: [u64; 4], w: u64 }
fn upd(c: &Ctx, k: u8, id: u8, slot: usize, wv: u64, lamports: u64, owner: u8, level: u64, st: &InmemoryAccountStore) -> u64 { st.update_account(acc_data(key(k), acct(lamports, unc(vec![id]), prog(owner)), c.s[slot], wv), commitment(level)) as u64 }
fn slot(c: &Ctx, i: usize, level: u64, st: &InmemoryAccountStore) -> u64 { let r = st.process_slot_data(SlotInfo { slot: c.s[i], parent: if i == 0 { 0 } else { c.s[i - 1] }, root: 0 }, commitment(level)); let mut x = 0; for a in &r { x += 1 << (a.account.data.data()[0] as u64) } x }
fn seen(st: &InmemoryAccountStore, k: u8, level: u64) -> u64 { st.get_account(key(k), commitment(level)).unwrap().map_or(0, |a| 1 + a.account.data.data()[0] as u64) }
fn listed(st: &InmemoryAccountStore, p: u8, level: u64) -> u64 { let mut x = 0; for a in st.get_program_accounts(prog(p), None, commitment(level)).unwrap() { x += 1 << (a.account.data.data()[0] as u64) } x }
fn op(i: u64, c: &Ctx, st: &InmemoryAccountStore) -> u64 {
    match i {
        0 => upd(c, 1, 5, 2, c.w, 7, 0, 0, st),             // newer state of a known account
        1 => upd(c, 1, 6, 1, 50, 7, 0, 0, st),              // later version in the slot being promoted
        2 => upd(c, 2, 7, 1, 1, 7, 0, 0, st),               // first state of another account
        3 => upd(c, 1, 8, 2, c.w, 0, 0, 2, st),             // final deletion
        4 => slot(c, 1, 1, st),
        5 => slot(c, 1, 2, st),
        6 => seen(st, 1, 1),
        7 => listed(st, 0, 2),
        8 => upd(c, 1, 9, 2, c.w, 9, 1, 0, st),             // moves to another program
        9 => listed(st, 0, 0),
        10 => st.create_snapshot(prog(0)).map_or(1, |s| 2 + s.len() as u64),
        11 => upd(c, 2, 10, 3, 1, 7, 1, 0, st),             // first account of a program, in a slot nobody announced
        12 => upd(c, 3, 11, 3, 1, 7, 1, 0, st),             // another one
        13 => upd(c, 3, 12, 2, 1, 7, 1, 2, st),             // another one, loaded initially
        14 => upd(c, 2, 13, 3, 2, 7, 0, 0, st),             // another version of the first one, in another program
        15 => slot(c, 3, 0, st),
        16 => slot(c, 3, 1, st),
        17 => slot(c, 2, 1, st),
        _ => slot(c, 2, 2, st),
    }
}
fn setup(c: &Ctx, second: u64) -> Arc<InmemoryAccountStore> {
    let st = Arc::new(store_for(&[prog(0), prog(1)]));
    upd(c, 1, 1, 0, 1, 3, 0, 0, &st); slot(c, 0, 0, &st); slot(c, 0, 2, &st);
    match second { 0 => { upd(c, 1, 2, 1, 1, 4, 0, 0, &st); } 1 => { upd(c, 1, 3, 1, 1, 0, 0, 0, &st); } _ => { upd(c, 1, 4, 1, 1, 4, 1, 0, &st); } }
    slot(c, 1, 0, &st); slot(c, 2, 0, &st);
    st
}
fn view(st: &InmemoryAccountStore) -> Vec<u64> {
    let mut v = vec![];
    for l in 0..3 { for k in 1..4 { v.push(seen(st, k, l)) } for p in 0..2 { v.push(listed(st, p, l)) } }
    v
}
fn pair(ops_a: &[u64], ops_b: &[u64]) {
    let (a, b) = (pick("first", ops_a), pick("second", ops_b));
    let second = choose("pending", 3);
    hash_orders(2);
    let s = [u64s("slot"), u64s("slot"), u64s("slot"), u64s("slot")]; assume((s[0] > 0) & (s[0] < s[1]) & (s[1] < s[2]) & (s[2] < s[3]) & (s[3] < 1 << 60));
    let c = Ctx { s, w: 60 };
    let (x, y) = (setup(&c, second), setup(&c, second));
    let x1 = op(a, &c, &x); let x2 = op(b, &c, &x);
    let y2 = op(b, &c, &y); let y1 = op(a, &c, &y);
    let (vx, vy) = (view(&x), view(&y));
    for i in [x1, x2, y1, y2] { obs("result", i) } for i in vx.iter().chain(vy.iter()) { obs("view", *i) }
    for _ in 0..loops() {
        let st = setup(&c, second);
        let (s1, s2) = (st.clone(), st.clone());
        ctx("two-threads");
        sched(true);
        let t1 = std::thread::spawn(move || { sched(true); let r = op(a, &c, &s1); sched(false); r });
        let t2 = std::thread::spawn(move || { sched(true); let r = op(b, &c, &s2); sched(false); r });
        let r1 = t1.join().unwrap(); let r2 = t2.join().unwrap();
        sched(false);
        let v = view(&st);
        check((v == vx) || (v == vy), "final-state-of-some-order");
        // A later version arriving in the middle of its slot's promotion may itself be confirmed: nothing older is then left to report.
        let overtaken = a == 1 && (b == 4 || b == 5) && r1 == x1 && r2 == 0;
        check(((r1 == x1) & (r2 == x2)) | ((r1 == y1) & (r2 == y2)) | overtaken, "results-of-some-order");
    }
}
fn upd_vs_slot() { pair(&[0, 1, 2, 3, 8], &[4, 5]) }
fn upd_vs_upd() { pair(&[0, 1, 2, 3, 8], &[0, 2, 3, 8]) }
fn read_vs_write() { pair(&[6, 7, 9, 10], &[0, 2, 3, 4, 5]) }
fn first_vs_first() { pair(&[11], &[12, 13, 14, 15, 16]) }
fn slot_vs_slot() { pair(&[4, 5], &[4, 5, 17, 18]) }
/// Filters added while others are added or asked for.
fn filters() {
    use lite_account_manager_common::mutable_filter_store::MutableFilterStore;
    let n = u64s("size");
    let f = move |i: u64| match i { 0 => AccountFilter { accounts: vec![key(1)], program_id: None, filters: None }, 1 => AccountFilter { accounts: vec![], program_id: Some(prog(0)), filters: None },
        2 => AccountFilter { accounts: vec![], program_id: Some(prog(1)), filters: Some(vec![AccountFilterType::Datasize(n)]) }, _ => AccountFilter { accounts: vec![key(2), key(3)], program_id: None, filters: None } };
    let l = choose("length", 3) as usize;
    // an account accepted by filter i only
    let a = move |i: u64| match i { 0 => acc_data(key(1), acct(1, unc(vec![]), prog(9)), 1, 1), 1 => acc_data(key(8), acct(1, unc(vec![]), prog(0)), 1, 1), 2 => acc_data(key(8), acct(1, unc(vec![0; l]), prog(1)), 1, 1), _ => acc_data(key(3), acct(1, unc(vec![]), prog(9)), 1, 1) };
    let fits = move |i: u64| i != 2 || n == l as u64;
    let (x, y) = (choose("first", 4), choose("second", 4)); let present = choose("present", 4); let ask = choose("second-does", 4);
    for _ in 0..loops() {
        let st = Arc::new(MutableFilterStore::default()); st.add_account_filters(&vec![f(present)]);
        let (s1, s2) = (st.clone(), st.clone());
        ctx("two-threads"); sched(true);
        let t1 = std::thread::spawn(move || { sched(true); s1.add_account_filters(&vec![f(x)]); sched(false) });
        let t2 = std::thread::spawn(move || { sched(true); let r = match ask { 0 => { s2.add_account_filters(&vec![f(y)]); true } 1 => s2.satisfies(&a(y)), 2 => s2.contains_filter(&f(y)), _ => s2.contains_account(key(if y == 0 { 1 } else { 2 })) }; sched(false); r });
        t1.join().unwrap(); let r = t2.join().unwrap(); sched(false);
        let has = |i: u64| i == x || i == present || ask == 0 && i == y;
        for i in 0..4 { check(st.satisfies(&a(i)) == (has(i) && fits(i)), "accepted"); check(st.contains_filter(&f(i)) == has(i), "covered") }
        check(st.contains_account(key(1)) == has(0) && st.contains_account(key(2)) == has(3), "account-listed");
        match ask { 1 => { if y == present && fits(y) { check(r, "accepted-meanwhile") } if !(has(y) && fits(y)) { check(!r, "accepted-meanwhile") } } 2 => { if y == present { check(r, "covered-meanwhile") } if !has(y) { check(!r, "covered-meanwhile") } }
            3 => { let w = if y == 0 { 0 } else { 3 }; if w == present { check(r, "listed-meanwhile") } if !has(w) { check(!r, "listed-meanwhile") } } _ => {} }
        if fits(x) { reach("added") }
    }
}
crate::harnesses! { T; h_conc_filters => filters, h_conc_ff => first_vs_first, h_conc_ss => slot_vs_slot, h_conc_us => upd_vs_slot, h_conc_uu => upd_vs_upd, h_conc_rw => read_vs_write }
