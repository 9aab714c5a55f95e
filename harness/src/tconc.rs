//! Two threads on one token store: no deadlock, and the outcome is that of one of the two orders.
use crate::{token::*, tstore::*, util::*};
use lite_token_account_storage::inmemory_token_storage::TokenProgramAccountsStorage as Store;

#[derive(Clone, Copy)]
struct Ctx { s: [u64; 4], w: u64 }
fn acc(a: u64, id: usize, kind: u64) -> TUp { TUp { acct: a, slot: 0, wv: 0, kind, amount: if kind == DEAD { 0 } else { 0x700 | id as u64 }, prog: 0 } }
fn upd(c: &Ctx, a: u64, id: usize, kind: u64, slot: usize, wv: u64, level: u64, st: &Store) -> u64 { let mut u = acc(a, id, kind); u.wv = wv; st.update_account(u.account(id, c.s[slot]), commitment(level)) as u64 }
fn load(a: u64, id: usize, kind: u64, st: &Store) { st.initilize_or_update_account(acc(a, id, kind).account(id, 0)) }
fn bits(v: Vec<AccountData>) -> u64 { let mut x = 0; for a in &v { x += 1 << (4 * id_of(a) as u64) } x }
fn slot(c: &Ctx, i: usize, level: u64, st: &Store) -> u64 { bits(st.process_slot_data(SlotInfo { slot: c.s[i], parent: if i == 0 { 0 } else { c.s[i - 1] }, root: 0 }, commitment(level))) }
fn seen(st: &Store, a: u64, level: u64) -> u64 { st.get_account(ck(a), commitment(level)).unwrap().map_or(0, |a| 1 + id_of(&a) as u64) }
fn listed(st: &Store, o: Option<u64>, m: Option<u64>, level: u64) -> u64 { bits(st.get_program_accounts(TP[0], Some(filters(o, m)), commitment(level)).unwrap()) }
fn restored(st: &Store) -> u64 { let t = tok_store(); t.load_from_snapshot(TP[0], st.create_snapshot(TP[0]).unwrap()).unwrap(); let mut x = 0; for a in 0..4 { x = x * 16 + seen(&t, a, 2) } x }
fn op(i: u64, c: &Ctx, st: &Store) -> u64 {
    match i {
        0 => upd(c, 0, 5, OWN0_MINT0, 2, c.w, 0, st),        // newer state of a known account
        1 => upd(c, 0, 6, OWN1_MINT0, 1, 50, 0, st),         // later version in the slot being promoted
        2 => upd(c, 2, 7, OWN0_MINT1, 2, 1, 0, st),          // first account of a mint not known before
        3 => upd(c, 4, 8, OWN1_MINT1, 2, 1, 0, st),          // another one
        4 => slot(c, 1, 1, st),
        5 => slot(c, 1, 2, st),
        6 => slot(c, 2, 1, st),
        7 => slot(c, 2, 2, st),
        8 => seen(st, 0, 0),
        9 => seen(st, 0, 1),
        10 => seen(st, 0, 2),
        11 => listed(st, Some(0), None, 0),
        12 => listed(st, None, Some(0), 1),
        13 => listed(st, Some(1), Some(0), 2),
        14 => restored(st),
        15 => { load(2, 9, OWN1_MINT1, st); 0 }              // initial load of the account of an unknown mint
        16 => { load(3, 10, MINT, st); 0 }                   // initial load of that mint
        17 => { load(4, 11, OWN1_MINT1, st); 0 }             // initial load of another account of that mint
        18 => upd(c, 2, 12, OWN1_MINT0, 3, 1, 0, st),        // first account in a slot nobody announced
        19 => upd(c, 4, 13, OWN1_MINT0, 3, 1, 0, st),        // another one
        20 => upd(c, 2, 14, OWN0_MINT0, 3, 2, 0, st),        // later version of the first one
        21 => slot(c, 3, 0, st),
        22 => slot(c, 3, 1, st),
        23 => upd(c, 0, 5, DEAD, 2, c.w, 2, st),             // final end of the known account
        24 => upd(c, 0, 6, OWN1_MINT0, 2, c.w, 2, st),       // final change of its owner
        25 => upd(c, 0, 7, OWN0_MINT1, 2, c.w, 2, st),       // final change of its mint
        _ => upd(c, 2, 8, OWN0_MINT0, 2, c.w, 2, st),        // final first state of another account
    }
}
fn setup(c: &Ctx, pending: u64) -> Arc<Store> {
    let st = Arc::new(tok_store());
    load(1, 1, MINT, &st); load(0, 2, OWN0_MINT0, &st);
    for i in 0..3 { slot(c, i, 0, &st); }
    slot(c, 0, 2, &st);
    match pending { 0 => { upd(c, 0, 3, OWN0_MINT0, 1, 1, 0, &st); } 1 => { upd(c, 0, 3, DEAD, 1, 1, 0, &st); } 2 => { upd(c, 0, 3, OWN1_MINT0, 1, 1, 0, &st); } NOTHING => (), k => { upd(c, 0, 3, OWN1_MINT0, 1, 1, 0, &st); upd(c, 0, 4, OWN0_MINT0, 2, 1, 0, &st); if k == 4 { slot(c, 1, 1, &st); } } }
    st
}
fn view(st: &Store) -> Vec<u64> {
    let mut v = vec![];
    for l in 0..3 { for a in [0, 2, 3, 4] { v.push(seen(st, a, l)) } v.push(listed(st, Some(0), None, l)); v.push(listed(st, Some(1), None, l)); v.push(listed(st, None, Some(0), l)); v.push(listed(st, None, Some(1), l)) }
    v.push(restored(st)); v
}
fn pair(ops_a: &[u64], ops_b: &[u64], pendings: u64) { pair_in(ops_a, ops_b, &[0, 1, 2, 3, 4][..pendings as usize]) }
fn pair_in(ops_a: &[u64], ops_b: &[u64], pendings: &[u64]) {
    let (a, b) = (pick("first", ops_a), pick("second", ops_b));
    let pending = pick("pending", pendings);
    let s = [u64s("slot"), u64s("slot"), u64s("slot"), u64s("slot")]; assume((s[0] > 0) & (s[0] < s[1]) & (s[1] < s[2]) & (s[2] < s[3]) & (s[3] < 1 << 60));
    let c = Ctx { s, w: 60 };
    let (x, y) = (setup(&c, pending), setup(&c, pending));
    let x1 = op(a, &c, &x); let x2 = op(b, &c, &x);
    let y2 = op(b, &c, &y); let y1 = op(a, &c, &y);
    let (vx, vy) = (view(&x), view(&y));
    for i in [x1, x2, y1, y2] { obs("result", i) } for i in vx.iter().chain(vy.iter()) { obs("view", *i) }
    for _ in 0..loops() {
        let st = setup(&c, pending);
        let (s1, s2) = (st.clone(), st.clone());
        ctx("two-threads");
        sched(true);
        let t1 = std::thread::spawn(move || { sched(true); let r = op(a, &c, &s1); sched(false); r });
        let t2 = std::thread::spawn(move || { sched(true); let r = op(b, &c, &s2); sched(false); r });
        let r1 = t1.join().unwrap(); let r2 = t2.join().unwrap();
        sched(false);
        let v = view(&st);
        check((v == vx) || (v == vy), "final-state-of-some-order");
        check(((r1 == x1) & (r2 == x2)) | ((r1 == y1) & (r2 == y2)), "results-of-some-order");
    }
}
fn upd_vs_slot() { pair(&[0, 1, 2], &[4, 5, 7], 5) }
fn upd_vs_upd() { pair(&[0, 1, 2, 15], &[0, 1, 3, 15, 16], 2) }
fn slot_vs_slot() { pair(&[4, 5], &[4, 5, 6, 7], 5) }
fn read_vs_slot() { pair(&[8, 9, 10], &[4, 5, 6, 7], 5) }
fn query_vs_slot() { pair(&[11, 12, 13, 14], &[4, 5, 7], 5) }
fn query_vs_upd() { pair(&[11, 13, 14], &[0, 2, 15], 2) }
const NOTHING: u64 = 9;
fn final_vs_any() { pair_in(&[23, 24, 25], &[10, 11, 12, 13, 14, 17, 26], &[NOTHING]) }
fn first_vs_first() { pair(&[15, 18], &[16, 17, 19, 20, 21, 22], 1) }
crate::harnesses! { T; h_tc_fin => final_vs_any, h_tc_ff => first_vs_first, h_tc_us => upd_vs_slot, h_tc_uu => upd_vs_upd, h_tc_ss => slot_vs_slot, h_tc_rs => read_vs_slot, h_tc_qs => query_vs_slot, h_tc_qu => query_vs_upd,
    h_tc_ssf => slot_vs_slot, h_tc_rsf => read_vs_slot, h_tc_us3 => upd_vs_slot, h_tc_uu3 => upd_vs_upd, h_tc_qs3 => query_vs_slot }
