//! The in-memory account store: commitment levels, slot promotion, deletion, program queries, snapshots.
use crate::util::*;
use lite_account_manager_common::simple_filter_store::SimpleFilterStore;
use lite_account_storage::{account_data_by_commitment::AccountDataByCommitment, inmemory_account_store::InmemoryAccountStore};

pub fn newer(a: (u64, u64), b: (u64, u64)) -> bool { (a.0 > b.0) | ((a.0 == b.0) & (a.1 > b.1)) }
/// Identity of an update travels in its data byte.
fn id_of(a: &AccountData) -> usize { a.account.data.data()[0] as usize }
fn upd(k: Pubkey, id: usize, owner: Pubkey, lamports: u64, slot: u64, wv: u64) -> AccountData { acc_data(k, acct(lamports, unc(vec![id as u8, 7]), owner), slot, wv) }

/// Updates to one account, any slots, any write versions, any commitment, any order.
fn abc_updates(n: usize) {
    let mut ups: Vec<(u64, u64, u64)> = vec![];
    let mut a: Option<AccountDataByCommitment> = None;
    for i in 0..n {
        let (s, w, c) = (u64s("slot"), u64s("wv"), choose("level", 3));
        let d = upd(key(1), i, prog(0), 1, s, w);
        let before: Vec<_> = (0..3).map(|c| a.as_ref().and_then(|a| a.get_account_data(commitment(c)))).collect();
        let mut ret = true;
        match &mut a {
            None => { a = Some(if c == 2 && choose("init", 2) == 1 { AccountDataByCommitment::initialize(d) } else { AccountDataByCommitment::new(d, commitment(c)) }) }
            Some(x) => ret = x.update(d, commitment(c)),
        }
        ups.push((s, w, c));
        let a = a.as_ref().unwrap();
        let mut prev: Option<(u64, u64)> = None;
        for c in 0..3u64 {
            let r = a.get_account_data(commitment(c));
            let mut any = false; for u in &ups { any |= u.2 >= c }
            check(r.is_some() == any, "read-present");
            if let Some(r) = &r {
                let id = id_of(r);
                check((r.updated_slot == ups[id].0) & (r.write_version == ups[id].1), "read-is-an-update");
                check(ups[id].2 >= c || c == 0, "read-level");
                for u in &ups { if u.2 >= c { check(!newer((u.0, u.1), (r.updated_slot, r.write_version)), "read-newest") } }
                if let Some(b) = &before[c as usize] { check(!newer((b.updated_slot, b.write_version), (r.updated_slot, r.write_version)), "read-monotone"); check(ret | (id_of(b) == id), "return-when-changed") }
                if let Some(p) = prev { check(!newer((r.updated_slot, r.write_version), p), "weaker-not-older") }
                prev = Some((r.updated_slot, r.write_version));
                let f = a.get_account_data_filtered(commitment(c), &vec![]); check(f.is_some() && id_of(&f.unwrap()) == id, "filtered-read");
            }
        }
        obs("ret", ret as u64); for c in 0..3 { obs("id", a.get_account_data(commitment(c)).map_or(99, |x| id_of(&x) as u64)) }
    }
}
fn abc_updates_3() { abc_updates(3) }
fn abc_updates_4() { abc_updates(4) }
/// Any mix of updates and promotions of any slots: reads never go back and stay ordered.
fn abc_promotions(n: usize) {
    let mut slots: Vec<u64> = vec![]; let mut keys: Vec<(u64, u64)> = vec![];
    let s0 = u64s("slot"); let w0 = u64s("wv"); let c0 = choose("level", 3);
    let mut a = AccountDataByCommitment::new(upd(key(1), 0, prog(0), 1, s0, w0), commitment(c0));
    slots.push(s0); keys.push((s0, w0));
    for i in 1..=n {
        let before: Vec<_> = (0..3).map(|c| a.get_account_data(commitment(c))).collect();
        let op = choose("op", 3);
        if op == 0 {
            let (s, w, c) = (u64s("slot"), u64s("wv"), choose("level", 3));
            a.update(upd(key(1), i, prog(0), 1, s, w), commitment(c)); slots.push(s); keys.push((s, w));
        } else {
            let j = choose("which", slots.len() as u64 + 1) as usize;
            let s = if j < slots.len() { slots[j] } else { u64s("otherslot") };
            let c = commitment(op);
            keys.push((0, 0));
            let r = a.promote_slot_commitment(s, c);
            let now = a.get_account_data(c);
            match &r {
                Some((new, old)) => {
                    check(now.is_some() && id_of(now.as_ref().unwrap()) == id_of(new), "promotion-result-is-read");
                    check(new.updated_slot == s, "promotion-slot");
                    check(old.is_some() == before[op as usize].is_some(), "promotion-previous");
                    if let (Some(o), Some(b)) = (old, &before[op as usize]) { check(id_of(o) == id_of(b), "promotion-previous-value") }
                }
                None => { check(now.is_some() == before[op as usize].is_some(), "no-promotion-same"); if let (Some(o), Some(b)) = (&now, &before[op as usize]) { check(id_of(o) == id_of(b), "no-promotion-same-value") } }
            }
        }
        let mut prev: Option<(u64, u64)> = None;
        for c in 0..3u64 {
            let r = a.get_account_data(commitment(c));
            if let Some(b) = &before[c as usize] {
                check(r.is_some(), "read-kept");
                let r = r.as_ref().unwrap();
                check(!newer((b.updated_slot, b.write_version), (r.updated_slot, r.write_version)), "read-monotone");
            }
            if c > 0 && r.is_some() { check(prev.is_some(), "weaker-present") }
            if let Some(r) = &r {
                let k = (r.updated_slot, r.write_version);
                check((keys[id_of(r)].0 == k.0) & (keys[id_of(r)].1 == k.1), "read-is-an-update");
                if let Some(p) = prev { check(!newer(k, p), "weaker-not-older") }
                prev = Some(k);
            }
            obs("id", r.map_or(99, |x| id_of(&x) as u64));
        }
    }
}
fn abc_promotions_2() { abc_promotions(2) }
fn abc_promotions_3() { abc_promotions(3) }

#[derive(Clone)]
pub struct Up { acct: u8, slot: usize, wv: u64, level: u64, lamports: u64, owner: Pubkey, gone: bool }
/// Reference model over a tree of slots (indices; values strictly increase with the index).
pub struct Model { pub val: Vec<u64>, pub parent: Vec<usize>, pub level: Vec<u64>, pub ups: Vec<Up>, pub fin: usize, pub tracked: Vec<Pubkey> }
impl Model {
    pub fn is_ancestor_or_same(&self, a: usize, mut b: usize) -> bool { while b > a { b = self.parent[b] } a == b }
    pub fn compatible(&self, i: usize) -> bool { (0..self.level.len()).all(|j| self.level[j] == 0 || self.is_ancestor_or_same(i, j) || self.is_ancestor_or_same(j, i)) }
    pub fn raise(&mut self, i: usize, l: u64) { let mut k = i; loop { if self.level[k] < l { self.level[k] = l } if k == 0 { break } k = self.parent[k] } if l == 2 && i > self.fin { self.fin = i } }
    fn level_of(&self, u: &Up) -> u64 { u.level.max(self.level[u.slot]) }
    fn sat(&self, o: &Pubkey) -> bool { self.tracked.is_empty() || self.tracked.contains(o) }
    fn finalized(&self, acct: u8) -> Option<usize> { let mut r: Option<usize> = None; for i in self.admissible(acct, 2) { r = match r { None => Some(i), Some(j) => Some(if self.ups[i].wv > self.ups[j].wv { i } else { j }) } } r }
    /// Forget what is not kept: an update to an account outside the filters, or everything once a deletion or a departure is final.
    fn life(&mut self, acct: u8, before: Option<usize>, update: bool, kept: bool) {
        let live: Vec<usize> = (0..self.ups.len()).filter(|i| self.ups[*i].acct == acct && !self.ups[*i].gone).collect();
        if update && live.len() == 1 && !self.sat(&self.ups[live[0]].owner) { self.ups[live[0]].gone = true; return }
        let f = self.finalized(acct);
        if f.is_none() || f == before || (update && live.len() == 1) { return }
        let f = f.unwrap(); let u = self.ups[f].clone();
        let left = match before { Some(b) => (self.ups[b].owner != u.owner || self.ups[b].lamports == 0) && !self.sat(&u.owner), None => false };
        let weak = live.iter().any(|i| { let x = &self.ups[*i]; (x.slot > u.slot || (x.slot == u.slot && x.wv > u.wv)) && x.lamports > 0 && self.sat(&x.owner) });
        let pending = live.iter().any(|i| { let x = &self.ups[*i]; (x.slot > u.slot || (x.slot == u.slot && x.wv > u.wv)) && x.lamports > 0 && self.sat(&x.owner) && !live.iter().any(|j| self.ups[*j].slot == x.slot && self.ups[*j].wv > x.wv) });
        // a newer live state already overwritten within its slot: either is fine
        let pending = if weak && !pending { kept } else { pending };
        if (u.lamports == 0 || left) && !pending { for i in live { self.ups[i].gone = true } reach("removed") }
    }
    /// The value a read must return is the newest admissible update; ties of slot and version may go either way.
    fn admissible(&self, acct: u8, c: u64) -> Vec<usize> {
        let l: Vec<usize> = (0..self.ups.len()).filter(|i| self.ups[*i].acct == acct && !self.ups[*i].gone && self.level_of(&self.ups[*i]) >= c).collect();
        let top = l.iter().map(|i| self.ups[*i].slot).max();
        l.into_iter().filter(|i| Some(self.ups[*i].slot) == top).collect()
    }
}
pub fn tree(n: usize) -> Model {
    let mut val = vec![]; let mut parent = vec![0];
    for i in 0..n { let s = u64s("slotnr"); if i > 0 { assume(s > val[i - 1]) } else { assume(s < 1u64 << 60) } assume(s < 1u64 << 62); val.push(s); if i > 0 { parent.push(if i > 1 { choose("parent", 2.min(i as u64)) as usize + i - 2.min(i) } else { 0 }) } }
    Model { val, parent, level: vec![0; n], ups: vec![], fin: 0, tracked: vec![] }
}
pub fn info(m: &Model, i: usize) -> SlotInfo { SlotInfo { slot: m.val[i], parent: if i == 0 { m.val[0].wrapping_sub(1) } else { m.val[m.parent[i]] }, root: 0 } }
pub fn store_for(programs: &[Pubkey]) -> InmemoryAccountStore {
    let mut f = SimpleFilterStore::default();
    f.add_account_filters(&programs.iter().map(|p| AccountFilter { accounts: vec![], program_id: Some(*p), filters: None }).collect());
    InmemoryAccountStore::new(Arc::new(f))
}
fn check_reads(m: &Model, st: &dyn AccountStorageInterface, naccts: u8, programs: &[Pubkey]) {
    for c in 0..3u64 {
        let mut live: Vec<AccountData> = vec![];
        for a in 0..naccts {
            let want = m.admissible(a, c);
            let got = st.get_account(key(a), commitment(c));
            check(got.is_ok(), "read-ok");
            let got = got.unwrap();
            if want.is_empty() { check(got.is_none(), "read-nothing-below-level"); continue }
            if let Some(g) = &got { check(g.account.lamports > 0, "read-not-deleted") } else {
                let newest = |i: &usize| { let mut r = true; for j in &want { r &= m.ups[*j].wv <= m.ups[*i].wv } r };
                let mut dead = false; for i in &want { if m.ups[*i].lamports == 0 { dead |= newest(i) } }
                check(dead, "read-present"); continue
            }
            let g = got.unwrap();
            let id = id_of(&g);
            check(want.contains(&id), "read-newest-slot");
            for i in want { check(m.ups[i].wv <= m.ups[id].wv, "read-newest-version") }
            check((g.updated_slot == m.val[m.ups[id].slot]) & (g.write_version == m.ups[id].wv) & (g.account.lamports == m.ups[id].lamports) & (g.account.owner == m.ups[id].owner), "read-fields");
            live.push(g);
        }
        for p in programs {
            let r = st.get_program_accounts(*p, None, commitment(c));
            check(r.is_ok(), "program-query-ok");
            let r = r.unwrap();
            let n = live.iter().filter(|a| a.account.owner == *p).count();
            check(r.len() == n, "program-query-count");
            for a in &live { if a.account.owner == *p { check(r.iter().any(|x| x.pubkey == a.pubkey && id_of(x) == id_of(a)), "program-query-member") } }
        }
    }
}
/// One event of a valid history, applied to the store and the model.
fn step(m: &mut Model, st: &InmemoryAccountStore, naccts: u64, upd_levels: u64, owners: &[Pubkey], only_update: bool, life: bool) { step_in(m, st, naccts, upd_levels, owners, only_update, life, None) }
/// An update goes to the given slot, if one is given.
fn step_in(m: &mut Model, st: &InmemoryAccountStore, naccts: u64, upd_levels: u64, owners: &[Pubkey], only_update: bool, life: bool, at: Option<usize>) {
    let n = m.val.len();
    let op = if only_update { 0 } else { choose("op", 3) };
    if op == 0 {
        let a = if naccts > 1 { choose("acct", naccts) } else { 0 } as u8;
        let s = at.unwrap_or_else(|| choose("uslot", n as u64) as usize);
        let l = if upd_levels > 1 { choose("ulevel", upd_levels) } else { 0 };
        // an update says nothing about forks that lost, nor does it come after its slot was passed by a finalized one
        assume(s >= m.fin && (m.level.iter().all(|l| *l < 2) || m.is_ancestor_or_same(m.fin, s)));
        assume(l == 0 || m.compatible(s));
        let owner = if owners.len() > 1 { owners[choose("owner", owners.len() as u64) as usize] } else { owners[0] };
        let w = u64s("wv");
        let lam = if life && choose("deleted", 2) == 1 { 0 } else { let l = u64s("lamports"); assume(l > 0); l };
        for u in &m.ups { if u.acct == a && u.slot == s { assume(u.wv != w); if life && upd_levels > 1 { assume(u.wv < w) } } }
        let id = m.ups.len();
        let before: Vec<_> = (0..3).map(|c| st.get_account(key(a), commitment(c)).unwrap().map(|x| id_of(&x))).collect();
        let ret = st.update_account(upd(key(a), id, owner, lam, m.val[s], w), commitment(l));
        if life && !m.ups.iter().any(|u| u.acct == a && !u.gone) && !m.sat(&owner) { check(!ret, "update-outside-filters-refused") }
        let fb = m.finalized(a);
        m.ups.push(Up { acct: a, slot: s, wv: w, level: l, lamports: lam, owner, gone: false });
        if life { m.life(a, fb, true, st.account_store_contains_key(&key(a))); check_tracked(m, st, a) }
        let after: Vec<_> = (0..3).map(|c| st.get_account(key(a), commitment(c)).unwrap().map(|x| id_of(&x))).collect();
        check(ret || before == after, "update-returns-true-when-visible");
    } else {
        let i = choose("nslot", n as u64) as usize;
        assume(m.compatible(i) && (m.level.iter().all(|l| *l < 2) || m.is_ancestor_or_same(m.fin, i)));
        let before: Vec<_> = (0..naccts as u8).map(|a| st.get_account(key(a), commitment(op)).unwrap().map(|x| id_of(&x))).collect();
        let r = st.process_slot_data(info(m, i), commitment(op));
        let fbs: Vec<_> = (0..naccts as u8).map(|a| m.finalized(a)).collect();
        m.raise(i, op);
        if life { for a in 0..naccts as u8 { m.life(a, fbs[a as usize], false, st.account_store_contains_key(&key(a))); check_tracked(m, st, a) } }
        if life {
            // every listed account is at the notified level now, each at most once, with a state that was sent
            for x in &r { check(r.iter().filter(|y| y.pubkey == x.pubkey).count() == 1, "promotion-list-once"); let u = &m.ups[id_of(x)]; check(key(u.acct) == x.pubkey && (m.level_of(u) >= op), "promotion-list-level") }
            return
        }
        let mut changed = 0;
        for a in 0..naccts as u8 {
            let now = st.get_account(key(a), commitment(op)).unwrap();
            if now.as_ref().map(id_of) != before[a as usize] { changed += 1; check(r.iter().any(|x| x.pubkey == key(a) && Some(id_of(x)) == now.as_ref().map(id_of)), "promotion-list-has") }
        }
        check(r.len() == changed, "promotion-list-exact");
        if changed > 0 { reach("promoted") }
    }
}
fn notify(m: &Model, st: &dyn AccountStorageInterface) { for i in 0..m.val.len() { let r = st.process_slot_data(info(m, i), Commitment::Processed); check(r.is_empty(), "processed-promotes-nothing") } }
/// Slot notifications at processed level arrive before everything, or after the first updates but before any promotion.
fn history(nslots: usize, events: usize, naccts: u64, levels: u64, owners: &[Pubkey]) {
    let st = store_for(owners);
    let mut m = tree(nslots);
    let late = choose("notified-after", 2) as usize;
    for e in 0..events { if e == late { notify(&m, &st) } step(&mut m, &st, naccts, levels, owners, e < late, false); if e + 1 == events || e + 2 == events { check_reads(&m, &st, naccts as u8, owners) } }
    for c in 0..3 { for a in 0..naccts as u8 { if let Some(x) = st.get_account(key(a), commitment(c)).unwrap() { obs("slot", x.updated_slot); obs("wv", x.write_version); obs("lamports", x.account.lamports) } } }
}
fn check_tracked(m: &Model, st: &InmemoryAccountStore, a: u8) {
    let t = m.ups.iter().any(|u| u.acct == a && !u.gone);
    check(st.account_store_contains_key(&key(a)) == t, if t { "account-kept" } else { "account-removed" });
}
/// Deletions, owner changes into and out of the filters, re-creations.
fn lifecycle(nslots: usize, events: usize, levels: u64, outside: bool) {
    let st = store_for(&[prog(0), prog(1)]);
    let mut m = tree(nslots); m.tracked = vec![prog(0), prog(1)];
    let owners = if outside { vec![prog(0), prog(2)] } else { vec![prog(0), prog(1)] };
    let late = choose("notified-after", 2) as usize;
    for e in 0..events { if e == late { notify(&m, &st) } step(&mut m, &st, 1, levels, &owners, e < late || e == 0, true); check_reads(&m, &st, 1, &[prog(0), prog(1)]); }
    for c in 0..3 { if let Some(x) = st.get_account(key(0), commitment(c)).unwrap() { obs("slot", x.updated_slot); obs("wv", x.write_version); obs("lamports", x.account.lamports) } }
}
/// Updates in any set of slots, in order or in reverse, then events.
fn filled(nslots: usize, events: usize, owners: &[Pubkey], tracked: &[Pubkey], life: bool) {
    let st = store_for(tracked);
    let mut m = tree(nslots); if life { m.tracked = tracked.to_vec() }
    let (reverse, late) = if life { (false, false) } else { (bools("reverse"), bools("notified-late")) };
    if !late { notify(&m, &st) }
    for i in 0..nslots { let s = if reverse { nslots - 1 - i } else { i }; if life || bools("filled") { step_in(&mut m, &st, 1, 1, owners, true, life, Some(s)) } }
    if late { notify(&m, &st) }
    for _ in 0..events { step(&mut m, &st, 1, 1, owners, false, life); check_reads(&m, &st, 1, tracked) }
    for c in 0..3 { if let Some(x) = st.get_account(key(0), commitment(c)).unwrap() { obs("slot", x.updated_slot); obs("wv", x.write_version); obs("lamports", x.account.lamports) } }
}
fn fill_a() { filled(3, 2, &[prog(0)], &[prog(0)], false) }
fn fill_a3() { filled(3, 3, &[prog(0)], &[prog(0)], false) }
fn fill_a4() { filled(4, 3, &[prog(0)], &[prog(0)], false) }
fn fill_life() { filled(3, 2, &[prog(0), prog(2)], &[prog(0), prog(1)], true) }
fn fill_life2() { filled(3, 2, &[prog(0), prog(1)], &[prog(0), prog(1)], true) }
fn fill_life3() { filled(3, 3, &[prog(0), prog(2)], &[prog(0), prog(1)], true) }
fn life_a() { lifecycle(3, 3, 1, true) }
fn life_b() { lifecycle(3, 3, 1, false) }
fn life_a4() { lifecycle(3, 4, 1, true) }
fn life_b4() { lifecycle(3, 4, 1, false) }
fn life_c() { lifecycle(2, 3, 3, true) }
fn hist_a() { history(3, 3, 1, 1, &[prog(0)]) }
fn hist_b() { history(3, 3, 2, 3, &[prog(0)]) }
fn hist_c() { history(3, 4, 1, 1, &[prog(0), prog(1)]) }

crate::harnesses! { T;
    h_abc3 => abc_updates_3, h_abc4 => abc_updates_4, h_prom2 => abc_promotions_2, h_prom3 => abc_promotions_3,
    h_hist_a => hist_a, h_hist_b => hist_b, h_hist_c => hist_c, h_life_a => life_a, h_life_b => life_b, h_life_c => life_c, h_life_a4 => life_a4, h_life_b4 => life_b4,
    h_fill_a => fill_a, h_fill_a3 => fill_a3, h_fill_a4 => fill_a4, h_fill_life => fill_life, h_fill_life2 => fill_life2, h_fill_life3 => fill_life3,
}
