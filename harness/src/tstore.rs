//! Histories of the token storage: reads by commitment, promotion of slots, queries, snapshots.
use crate::{astore::{info, tree, Model}, token::*, util::*};
use lite_token_account_storage::{inmemory_token_account_storage::InmemoryTokenAccountStorage, inmemory_token_storage::TokenProgramAccountsStorage};

pub const OWN0_MINT0: u64 = 0; pub const OWN1_MINT0: u64 = 1; pub const OWN0_MINT1: u64 = 2; pub const DEAD: u64 = 3; pub const MINT: u64 = 4; pub const MSIG: u64 = 5; pub const OTHER_PROGRAM: u64 = 6; pub const OWN1_MINT1: u64 = 7;
/// Wallets share their first four bytes, except wallet 1.
pub fn wallet(i: u64) -> Pubkey { let mut b = [if i == 1 { 6 } else { 5u8 }; 32]; b[10 + i as usize] = 77; Pubkey::new_from_array(b) }
/// The mints are accounts 1 and 3.
pub fn mint(i: u64) -> Pubkey { if i == 0 { ck(1) } else { ck(3) } }
fn owner_mint(kind: u64) -> (u64, u64) { match kind { OWN1_MINT0 => (1, 0), OWN0_MINT1 => (0, 1), OWN1_MINT1 => (1, 1), _ => (0, 0) } }
#[derive(Clone)]
pub struct TUp { pub acct: u64, pub slot: usize, pub wv: u64, pub kind: u64, pub amount: u64, pub prog: u64 }
/// Initial states carry this slot.
pub const INITIAL: usize = usize::MAX;
impl TUp {
    pub fn program(&self) -> u64 { if self.kind == OTHER_PROGRAM { 1 - self.prog } else { self.prog } }
    pub fn is_token(&self) -> bool { self.kind < DEAD || self.kind >= OTHER_PROGRAM }
    pub fn data(&self, id: usize) -> Vec<u8> {
        match self.kind {
            DEAD => vec![],
            MINT => mint_bytes(None, self.amount, id as u8, true, None),
            MSIG => multisig_bytes(id as u8, 2, true, &[wallet(0), Pubkey::new_from_array([(self.amount >> 8) as u8; 32])]),
            // frozen, delegated, native, closable and extended ones among them
            k => {
                let (o, m) = owner_mint(k); let i = id as u64;
                let mut d = tok_bytes(mint(m), wallet(o), self.amount, 1 + i % 2, if i % 3 == 1 { Some((wallet(2), 5)) } else { None }, if i % 4 == 2 { Some(0) } else { None }, if i % 4 == 1 { Some(wallet(3)) } else { None });
                if self.program() == 1 && i % 2 == 1 { d.extend_from_slice(&[2, id as u8]) }
                d
            }
        }
    }
    pub fn account(&self, id: usize, slot: u64) -> AccountData {
        if self.kind == DEAD { return acc_data(ck(self.acct), acct(0, unc(vec![]), Pubkey::default()), slot, self.wv) }
        tdata(ck(self.acct), self.program(), 1_000_000_000, self.data(id), slot, self.wv)
    }
}
/// Identity of an update travels in its data.
pub fn id_of(a: &AccountData) -> usize { let d = a.account.data.data(); (match d.len() { 82 => d[44], 355 => d[0], _ => d[64] }) as usize }
pub fn amount(id: usize) -> u64 { let x = u64s("amount"); (x << 8) | id as u64 }
pub struct TModel { pub t: Model, pub ups: Vec<TUp>, pub fin: Option<usize>, pub levels: bool, pub floor: Vec<Option<usize>>, pub known: Vec<bool> }
impl TModel {
    pub fn new(nslots: usize) -> Self { let t = tree(nslots); assume(t.val[0] > 0); TModel { t, ups: vec![], fin: None, levels: false, floor: vec![None; 6], known: vec![false; nslots] } }
    /// The parents from the slot back to the finalized one are known.
    fn connected(&self, mut i: usize) -> bool { while i > 0 && self.fin.map_or(true, |f| i > f) { if !self.known[i] { return false } i = self.t.parent[i] } true }
    fn frontier(&self) -> Option<usize> { (0..self.t.level.len()).filter(|i| self.t.level[*i] >= 1).max() }
    fn newest(&self, a: u64, in_slots: impl Fn(usize) -> bool) -> Vec<usize> {
        let l: Vec<usize> = (0..self.ups.len()).filter(|i| self.ups[*i].acct == a && self.ups[*i].slot != INITIAL && in_slots(self.ups[*i].slot)).collect();
        let top = l.iter().map(|i| self.ups[*i].slot).max();
        l.into_iter().filter(|i| Some(self.ups[*i].slot) == top).collect()
    }
    /// Candidates of a read: the updates of the newest visible slot, else the initial state.
    pub fn visible(&self, a: u64, c: u64) -> Vec<usize> {
        let mut r = vec![];
        if c == 0 { let f = self.frontier(); r = self.newest(a, |s| f.map_or(true, |f| s > f)); }
        if r.is_empty() { r = self.newest(a, |s| self.t.level[s] >= c.max(1)); }
        if r.is_empty() { r = (0..self.ups.len()).filter(|i| self.ups[*i].acct == a && self.ups[*i].slot == INITIAL).collect(); }
        r
    }
    pub fn is_newest(&self, i: usize, l: &[usize]) -> bool { let mut r = true; for j in l { r &= self.ups[*j].wv <= self.ups[i].wv } r }
    fn update_ok(&self, s: usize) -> bool { match self.fin { None => true, Some(f) => s > f && self.t.is_ancestor_or_same(f, s) } }
    /// `want` are candidates in one slot; the answer must be the one with the highest write version.
    fn expect(&self, got: Option<&AccountData>, want: &[usize], level: u64, what: [&str; 3]) {
        match got {
            None => { let mut dead = want.is_empty(); for i in want { if self.ups[*i].kind == DEAD { dead |= self.is_newest(*i, want) } } check(dead, what[0]) }
            Some(g) => {
                let id = id_of(g);
                check(want.contains(&id) && self.ups[id].kind != DEAD, what[1]);
                let u = &self.ups[id];
                check(self.is_newest(id, want), what[1]);
                check(eqb(&g.account.data.data(), &u.data(id)) && g.pubkey == ck(u.acct) && g.account.owner == TP[u.program() as usize] && g.account.lamports > 0, what[2]);
                if u.slot != INITIAL { check(if level < 2 && self.fin.map_or(true, |f| u.slot > f) { g.updated_slot == self.t.val[u.slot] } else { g.updated_slot >= self.t.val[u.slot] }, "read-slot") }
            }
        }
    }
}
pub fn tok_store() -> TokenProgramAccountsStorage { TokenProgramAccountsStorage::new(Arc::new(InmemoryTokenAccountStorage::default())) }
pub fn reads(m: &TModel, st: &TokenProgramAccountsStorage, naccts: u64, queries: bool) {
    if let Some(f) = m.frontier() { if !m.connected(f) { return } }
    for c in 0..3u64 {
        let mut live: Vec<AccountData> = vec![];
        for a in 0..naccts {
            let g = st.get_account(ck(a), commitment(c)); check(g.is_ok(), "read-ok"); let g = g.unwrap();
            m.expect(g.as_ref(), &m.visible(a, c), c, ["read-present", "read-newest", "read-data"]);
            if let Some(g) = g { live.push(g) }
        }
        if queries { check_queries(m, st, &live, commitment(c)) }
    }
}
fn is_kind(m: &TModel, g: &AccountData, owner: Option<u64>, mint: Option<u64>) -> bool { let u = &m.ups[id_of(g)]; u.is_token() && g.account.data.len() == 165 && owner.map_or(true, |o| owner_mint(u.kind).0 == o) && mint.map_or(true, |x| owner_mint(u.kind).1 == x) }
fn set(got: &[AccountData], want: &[&AccountData], what: [&str; 2]) {
    check(got.len() == want.len(), what[0]);
    for w in want { let l: Vec<_> = got.iter().filter(|g| g.pubkey == w.pubkey).collect(); check(l.len() == 1, what[0]); if let Some(g) = l.first() { check(id_of(g) == id_of(w) && eqb(&g.account.data.data(), &w.account.data.data()) && g.account.owner == w.account.owner, what[1]) } }
}
pub fn filters(owner: Option<u64>, m: Option<u64>) -> Vec<AccountFilterType> {
    let mut f = vec![AccountFilterType::Datasize(165)];
    if let Some(o) = owner { f.push(memcmp(32, MemcmpFilterData::Bytes(wallet(o).to_bytes().to_vec()))) }
    if let Some(x) = m { f.push(memcmp(0, MemcmpFilterData::Bytes(mint(x).to_bytes().to_vec()))) }
    f
}
fn check_queries(m: &TModel, st: &TokenProgramAccountsStorage, live: &[AccountData], c: Commitment) {
    for p in 0..2u64 {
        let of = |g: &&AccountData| g.account.owner == TP[p as usize];
        for q in 0..8u64 {
            let (o, x) = match q { 0 => (Some(0), None), 1 => (Some(1), None), 2 => (None, Some(0)), 3 => (None, Some(1)), k => (Some(k % 2), Some(k / 2 % 2)) };
            let r = st.get_program_accounts(TP[p as usize], Some(filters(o, x)), c); check(r.is_ok(), "query-ok");
            let want: Vec<_> = live.iter().filter(of).filter(|g| is_kind(m, g, o, x)).collect();
            if !want.is_empty() { reach("query-nonempty") }
            set(&r.unwrap(), &want, ["query-exact", "query-data"]);
        }
        let r = st.get_program_accounts(TP[p as usize], Some(filters(Some(4), None)), c); check(r.is_ok() && r.unwrap().is_empty(), "query-of-a-wallet-without-accounts");
        let r = st.get_program_accounts(TP[p as usize], Some(vec![AccountFilterType::Datasize(82)]), c); check(r.is_ok(), "mints-ok");
        let want: Vec<_> = live.iter().filter(of).filter(|g| m.ups[id_of(g)].kind == MINT).collect();
        set(&r.unwrap(), &want, ["mints-exact", "mints-data"]);
    }
}
pub fn initial(m: &mut TModel, st: &TokenProgramAccountsStorage, a: u64, kinds: &[u64]) {
    let k = choose("initial", kinds.len() as u64 + 1) as usize; if k == kinds.len() { return }
    let id = m.ups.len(); let u = TUp { acct: a, slot: INITIAL, wv: 0, kind: kinds[k], amount: amount(id), prog: a % 2 };
    st.initilize_or_update_account(u.account(id, 0)); m.ups.push(u);
}
pub fn update(m: &mut TModel, st: &TokenProgramAccountsStorage, naccts: u64, kinds: &[u64]) { update_in(m, st, naccts, kinds, None, None) }
fn update_in(m: &mut TModel, st: &TokenProgramAccountsStorage, naccts: u64, kinds: &[u64], at: Option<usize>, who: Option<u64>) {
    let n = m.t.val.len();
    let a = if let Some(a) = who { a } else if naccts > 1 { choose("acct", naccts) } else { 0 };
    let s = at.unwrap_or_else(|| choose("uslot", n as u64) as usize); assume(m.update_ok(s));
    if let Some(f) = m.floor[a as usize] { assume(s > f && m.t.is_ancestor_or_same(f, s)) }
    let level = if m.levels { choose("ulevel", 3) } else { 0 };
    let id = m.ups.len();
    let kind = kinds[choose("kind", kinds.len() as u64) as usize];
    let u = TUp { acct: a, slot: s, wv: u64s("wv"), kind, amount: if kind == DEAD { 0 } else { amount(id) }, prog: a % 2 };
    if level == 2 {
        // a final state takes the place of the one before; nothing of the account was pending
        assume(!m.ups.iter().any(|x| x.acct == a && x.slot != INITIAL && m.fin.map_or(true, |f| x.slot > f)));
        let ret = st.update_account(u.account(id, m.t.val[s]), Commitment::Finalized);
        check(ret || kind == DEAD, "final-update-is-stored");
        for x in m.ups.iter_mut() { if x.acct == a { x.acct = 99 } }
        m.floor[a as usize] = Some(s);
        m.ups.push(TUp { acct: if kind == DEAD { 99 } else { a }, slot: INITIAL, ..u }); reach("final-update"); return
    }
    let mut newer = true; for x in &m.ups { if x.acct == a && x.slot == s { assume(x.wv != u.wv); newer &= x.wv < u.wv } }
    let ret = st.update_account(u.account(id, m.t.val[s]), commitment(level));
    // the end of an account that is not stored is not stored either
    if kind == DEAD && !ret && !m.ups.iter().any(|x| x.acct == a && x.slot != INITIAL && m.fin.map_or(true, |f| x.slot > f)) {
        let l = m.visible(a, 2); let mut gone = l.is_empty(); for i in &l { if m.ups[*i].kind == DEAD { gone |= m.is_newest(*i, &l) } }
        check(gone, "update-of-stored-account-is-stored"); m.ups.push(TUp { acct: 99, ..u }); return
    }
    check(ret == newer, "update-returns-true-when-newest-of-its-slot");
    m.ups.push(u);
}
pub fn promote(m: &mut TModel, st: &TokenProgramAccountsStorage, naccts: u64) {
    let l = 1 + choose("level", 2); let i = choose("nslot", m.t.val.len() as u64) as usize;
    assume(m.t.compatible(i) && m.fin.map_or(true, |f| m.t.is_ancestor_or_same(f, i) || m.t.is_ancestor_or_same(i, f)));
    m.known[i] = true;
    // finalizing across a slot that is not known loses what comes before it
    if l == 2 { assume(m.connected(i)) }
    let old = m.fin;
    let r = st.process_slot_data(info(&m.t, i), commitment(l));
    for a in 0..naccts {
        let want = if old.map_or(false, |f| i <= f) { vec![] } else if l == 1 { m.newest(a, |s| s == i) } else { m.newest(a, |s| m.t.is_ancestor_or_same(s, i) && old.map_or(true, |f| s > f)) };
        let got: Vec<_> = r.iter().filter(|x| x.pubkey == ck(a)).collect();
        check(got.len() <= 1, "notified-once");
        m.expect(got.first().copied(), &want, l - 1, ["notified", "notified-newest", "notified-data"]);
        if !got.is_empty() { reach("notified") }
    }
    check(r.iter().all(|x| (0..naccts).any(|a| x.pubkey == ck(a))), "notified-known");
    m.t.raise(i, l);
    if l == 2 && old.map_or(true, |f| i > f) { m.fin = Some(i) }
}
pub fn announce(m: &mut TModel, st: &TokenProgramAccountsStorage) { m.known = vec![true; m.t.val.len()]; for i in 0..m.t.val.len() { check(st.process_slot_data(info(&m.t, i), Commitment::Processed).is_empty(), "processed-promotes-nothing") } }
fn history(nslots: usize, events: usize, naccts: u64, kinds: &[u64], init: &[u64], queries: bool, modes: u64) { history_of(nslots, events, naccts, kinds, init, queries, modes, false) }
fn history_of(nslots: usize, events: usize, naccts: u64, kinds: &[u64], init: &[u64], queries: bool, modes: u64, levels: bool) {
    let st = tok_store(); let mut m = TModel::new(nslots); m.levels = levels;
    for a in 0..naccts { if !init.is_empty() { initial(&mut m, &st, a, init) } }
    // announced before everything, after the first update, or never
    let late = if modes > 1 { choose("announced", modes) as usize } else { 0 };
    for e in 0..events {
        if e == late && late < 2 { announce(&mut m, &st) }
        if e < late && late == 1 || choose("op", 2) == 0 { update(&mut m, &st, naccts, kinds) } else { promote(&mut m, &st, naccts) }
        if e + 1 == events { reads(&m, &st, naccts, queries) }
    }
    for c in 0..3 { for a in 0..naccts { if let Some(x) = st.get_account(ck(a), commitment(c)).unwrap() { obs("slot", x.updated_slot); obs_bytes("data", &x.account.data.data()) } } }
}
/// A snapshot of one program restores exactly its finalized accounts, whatever the receiving store holds.
fn put(m: &mut TModel, st: &TokenProgramAccountsStorage, a: u64, kind: u64, prog: u64) -> usize {
    let id = m.ups.len(); let u = TUp { acct: a, slot: INITIAL, wv: 0, kind, amount: amount(id), prog };
    st.initilize_or_update_account(u.account(id, 0)); m.ups.push(u); id
}
fn snapshot(p: u64, own0: &[u64], own2: &[u64], dst_modes: u64) {
    let (src, dst) = (tok_store(), tok_store()); let mut m = TModel::new(1);
    let mut want: Vec<Option<usize>> = vec![None; 6];
    // the source: two mints, two accounts of the program, one of the other program, in two orders
    let (k0, k2) = (own0[choose("kind0", own0.len() as u64) as usize], own2[choose("kind2", own2.len() as u64) as usize]);
    let order: [u64; 5] = if bools("tokens-first") { [0, 2, 4, 3, 1] } else { [1, 3, 0, 4, 2] };
    let mints = [bools("mint0"), bools("mint1")];
    let mut made: Vec<Option<usize>> = vec![None; 6];
    for a in order { match a {
        0 => made[0] = Some(put(&mut m, &src, 0, k0, p)),
        2 => made[2] = Some(put(&mut m, &src, 2, k2, p)),
        4 => { put(&mut m, &src, 4, OWN0_MINT0, 1 - p); }
        _ => if mints[(a / 2) as usize] { made[a as usize] = Some(put(&mut m, &src, a, MINT, p)) },
    } }
    // what is not finalized, or gone, is not in the snapshot
    match choose("source-then", 3) {
        0 => {}
        1 => { let id = m.ups.len(); let u = TUp { acct: 0, slot: 0, wv: 1, kind: OWN1_MINT0, amount: amount(id), prog: p }; src.update_account(u.account(id, m.t.val[0]), Commitment::Processed); m.ups.push(TUp { acct: 99, ..u }) }
        _ => { let u = TUp { acct: 2, slot: 0, wv: 1, kind: DEAD, amount: 0, prog: p }; src.update_account(u.account(0, m.t.val[0]), Commitment::Processed); src.process_slot_data(info(&m.t, 0), Commitment::Finalized); made[2] = None }
    }
    for a in 0..4usize { if let Some(id) = made[a] { let u = &m.ups[id]; if !u.is_token() || mints[owner_mint(u.kind).1 as usize] { want[a] = Some(id) } } }
    // the destination: empty, or other accounts and mint indexes
    let mut prior: Vec<Option<usize>> = vec![None; 6];
    match choose("destination", dst_modes) {
        0 => {}
        1 => { prior[5] = Some(put(&mut m, &dst, 5, OWN0_MINT1, p)); prior[3] = Some(put(&mut m, &dst, 3, MINT, p)); prior[0] = Some(put(&mut m, &dst, 0, OWN1_MINT0, p)) }
        2 => { prior[0] = Some(put(&mut m, &dst, 0, MSIG, p)); prior[2] = Some(put(&mut m, &dst, 2, MINT, p)); prior[4] = Some(put(&mut m, &dst, 4, OWN1_MINT1, 1 - p)) }
        _ => { prior[1] = Some(put(&mut m, &dst, 1, OWN0_MINT1, p)); prior[3] = Some(put(&mut m, &dst, 3, MSIG, p)); prior[4] = Some(put(&mut m, &dst, 4, OWN0_MINT0, p)) }
    }
    let b = src.create_snapshot(TP[p as usize]); check(b.is_ok(), "snapshot-ok");
    check(dst.load_from_snapshot(TP[p as usize], b.unwrap()).is_ok(), "snapshot-loads");
    for c in 0..3u64 {
        let mut live = vec![];
        for a in 0..6u64 {
            let g = dst.get_account(ck(a), commitment(c)).unwrap();
            match want[a as usize].or(prior[a as usize]) {
                None => check(g.is_none(), "snapshot-excludes"),
                Some(id) => {
                    check(g.is_some(), "snapshot-restores"); let g = g.unwrap();
                    check(id_of(&g) == id && g.account.owner == TP[m.ups[id].program() as usize], "snapshot-state");
                    check(eqb(&g.account.data.data(), &m.ups[id].data(id)), "snapshot-data"); live.push(g);
                    if want[a as usize].is_some() { reach("restored") }
                }
            }
        }
        if c == 2 { check_queries(&m, &dst, &live, commitment(c)); obs("n", live.len() as u64); for g in &live { obs_bytes("data", &g.account.data.data()) } }
    }
    check(matches!(src.create_snapshot(prog(0)), Err(AccountLoadingError::WrongIndex)), "snapshot-of-another-program");
}
fn snap_a() { let p = choose("program", 2); snapshot(p, &[OWN0_MINT0, MSIG], &[OWN1_MINT0, OWN0_MINT1], 4) }
fn snap_b() { let p = choose("program", 2); snapshot(p, &[OWN0_MINT0, OWN1_MINT0, OWN0_MINT1, MINT, MSIG], &[OWN0_MINT0, OWN1_MINT1, MINT, MSIG], 4) }
fn packed(inner: &[u8]) -> Vec<u8> { lz4::block::compress(inner, Some(lz4::block::CompressionMode::HIGHCOMPRESSION(8)), true).unwrap() }
/// Bytes that are no snapshot of the token storage are refused with an error and change nothing.
fn snap_malformed() {
    let p = choose("program", 2);
    let (src, dst) = (tok_store(), tok_store()); let mut m = TModel::new(1);
    let x = put(&mut m, &src, 1, MINT, p); put(&mut m, &src, 0, OWN0_MINT0, p); put(&mut m, &src, 2, MSIG, p);
    let old = put(&mut m, &dst, 0, MSIG, p); let _ = x;
    let b = src.create_snapshot(TP[p as usize]).unwrap();
    let inner = lz4::block::decompress(&b, None).unwrap();
    ctx("malformed-snapshot");
    let refused = match choose("how", 4) {
        0 => { let bad: &[&[u8]] = &[&[], &[1], &[9, 0, 0], &[9, 0, 0, 0], &[0xff, 0xff, 0xff, 0xff, 1, 2]]; check(dst.load_from_snapshot(TP[p as usize], pick("outer", bad).to_vec()).is_err(), "malformed-refused"); true }
        1 => { let cut = choose("cut", inner.len() as u64) as usize; check(matches!(dst.load_from_snapshot(TP[p as usize], packed(&inner[..cut])), Err(AccountLoadingError::DeserializationIssues)), "malformed-refused"); true }
        3 => {
            // the record of the multisig: more signers than there can be
            let at = inner.windows(32).position(|w| w == wallet(0).to_bytes()).unwrap(); let had = inner[at - 8] as usize; assume(had >= 1 && had <= 2);
            let n = pick("signers", &[1, 2, 10, 11, 12, 13, 40, 255]) as usize;
            let mut b = inner[..at - 8].to_vec(); b.extend_from_slice(&(n as u64).to_le_bytes());
            for _ in 0..n { b.extend_from_slice(&wallet(0).to_bytes()) } b.extend_from_slice(&inner[at + 32 * had..]);
            let r = dst.load_from_snapshot(TP[p as usize], packed(&b));
            check(r.is_ok() == (n <= 11), "malformed-refused-only");
            if r.is_err() { check(matches!(r, Err(AccountLoadingError::DeserializationIssues)), "malformed-error") }
            else { let g = dst.get_account(ck(2), Commitment::Finalized).unwrap(); check(g.is_some(), "accepted-is-loaded"); let d = g.unwrap().account.data.data(); check(d.len() == 355 && (0..11).all(|i| d[3 + 32 * i..35 + 32 * i] == if i < n { wallet(0).to_bytes() } else { [0; 32] }), "accepted-is-loaded") }
            r.is_err()
        }
        _ => {
            // the record of the token account: any flags and deletion mark, any of these lengths
            let lens = [0u64, 1, 77, 78, 79, 81, 82, 84, 86, 90, 110, 118, 122, 126, 158, 162, 165];
            let n = pick("length", &lens) as usize;
            let mut rec = vec![0u8; n]; let (f, d, k) = (u8s("flags"), u8s("deleted"), u8s("size")); if n > 0 { rec[0] = f } if n > 1 { rec[1] = d }
            if n >= 34 { rec[2..34].copy_from_slice(&ck(2).to_bytes()) }
            let on = |i: u8| ((f >> i) & 1) as usize;
            let head = 78 + 40 * on(4) + 8 * on(5) + 32 * on(6);
            let mut ok = (n >= 78) & (d <= 1) & (((f >> 2) & 3) != 3);
            if on(7) == 1 { if n >= head + 4 { rec[head] = k } ok &= (head + 4 + k as usize == n) & (n >= head + 4) } else { ok &= head == n }
            let at = inner.windows(32).rposition(|w| w == ck(0).to_bytes()).unwrap() - 2; // the record of account 0 comes last
            let mut b = inner[..at - 16].to_vec(); b.extend_from_slice(&2u64.to_le_bytes());
            let good = &inner[at..]; b.extend_from_slice(&(good.len() as u64).to_le_bytes()); b.extend_from_slice(good);
            b.extend_from_slice(&(n as u64).to_le_bytes()); b.extend_from_slice(&rec);
            let r = dst.load_from_snapshot(TP[p as usize], packed(&b));
            check(r.is_ok() == ok, "malformed-refused-only");
            if r.is_err() { check(matches!(r, Err(AccountLoadingError::DeserializationIssues)), "malformed-error") }
            r.is_err()
        }
    };
    if refused {
        let g = dst.get_account(ck(0), Commitment::Finalized).unwrap(); check(g.is_some() && id_of(&g.unwrap()) == old, "malformed-changes-nothing");
        for a in 1..3 { check(dst.get_account(ck(a), Commitment::Processed).unwrap().is_none(), "malformed-adds-nothing") }
        reach("refused")
    } else { check(id_of(&dst.get_account(ck(0), Commitment::Finalized).unwrap().unwrap()) == 1, "accepted-is-loaded"); reach("accepted") }
    obs("refused", refused as u64);
}
/// A query returns the account exactly when the account meets all of its conditions, whatever they are; or it is refused.
fn query(extra: bool) {
    use crate::filters::enc;
    let st = tok_store();
    let p = choose("program", 2); let q = if extra { p } else { choose("queried-program", 2) };
    let kind = choose("kind", 4);
    let (delegate, native, close) = (if extra && kind == 0 && bools("has-delegate") { Some((wallet(2), u64s("delegated"))) } else { None }, if extra && kind == 0 && bools("has-native") { Some(u64s("native")) } else { None }, if extra && kind == 0 && bools("has-close") { Some(wallet(3)) } else { None });
    let data = match kind {
        0 => tok_bytes(mint(0), wallet(0), u64s("amount"), if extra { choose("state", 3) } else { 1 }, delegate, native, close),
        // a token account with an extension, a mint, a mint with an extension
        1 => { assume(p == 1); let mut d = tok_bytes(mint(0), wallet(0), u64s("amount"), 1, None, None, None); d.push(2); d.push(u8s("ext")); d }
        2 => mint_bytes(None, u64s("supply"), u8s("decimals"), true, None),
        _ => { assume(p == 1); let mut d = mint_bytes(None, u64s("supply"), 3, true, None); d.resize(165, 0); d.push(1); d.push(u8s("ext")); d }
    };
    let s = u64s("slot"); assume(s > 0);
    let final_ = bools("finalized");
    let a = tdata(ck(0), p, 1_000_000_000, data.clone(), s, u64s("wv"));
    check(st.update_account(a, if final_ { Commitment::Finalized } else { Commitment::Processed }), "stored");
    if !extra && bools("other-mint-known") { st.update_account(tdata(ck(3), 0, 1, tok_bytes(mint(1), wallet(1), 1, 1, None, None, None), s, 1), Commitment::Finalized); }
    // conditions: what kind of account, whose, which mint, and anything else
    let mut f = vec![]; let mut named = false;
    match choose("shape", if extra { 3 } else { 4 }) { 0 => f.push(AccountFilterType::Datasize(165)), 1 => f.push(memcmp(165, MemcmpFilterData::Bytes(vec![2]))), 2 => f.push(AccountFilterType::Datasize(82)), _ => {} }
    let of_tokens = f.first() == Some(&AccountFilterType::Datasize(165)) || q == 1 && matches!(f.first(), Some(AccountFilterType::Memcmp(_)));
    if extra {
        // the owner or the mint, and any other bytes anywhere
        if bools("by-mint") { f.push(memcmp(0, MemcmpFilterData::Bytes(mint(0).to_bytes().to_vec()))) } else { f.push(memcmp(32, MemcmpFilterData::Bytes(wallet(0).to_bytes().to_vec()))) }
        named = true;
    } else {
        match choose("owner", 3) { 0 => {} n => { f.insert(0, memcmp(32, enc(choose("encoding", 3), &wallet(n - 1).to_bytes()))); named = true } }
        match choose("mint", 3) { 0 => {} n => { f.push(memcmp(0, enc(choose("encoding", 3), &mint(n - 1).to_bytes()))); named = true } }
    }
    let (off, pat) = if extra { (u64s("offset"), bytes("pattern", 1)) } else { (1, vec![]) };
    assume((off != 32) & (off != 0) & (off != 165));
    if extra { f.insert(choose("at", 2) as usize * f.len(), memcmp(off, MemcmpFilterData::Bytes(pat.clone()))) }
    let mut want = p == q;
    for x in &f { want &= match x { AccountFilterType::Datasize(n) => *n == data.len() as u64, AccountFilterType::Memcmp(m) => if m.offset == 32 || m.offset == 0 || m.offset == 165 { spec_memcmp(m.offset, &m.bytes(), &data) } else { spec_memcmp(off, &pat, &data) } } }
    let c = choose("level", 3);
    let r = st.get_program_accounts(TP[q as usize], Some(f.clone()), commitment(c));
    let answerable = of_tokens && named || f.contains(&AccountFilterType::Datasize(82));
    match r {
        Err(e) => check(!answerable && matches!(e, AccountLoadingError::ShouldContainAnAccountFilter), "refused-only-when-undescribed"),
        Ok(r) => {
            check(answerable, "unanswerable-refused");
            let l: Vec<_> = r.iter().filter(|x| x.pubkey == ck(0)).collect();
            check((l.len() == 1) == (want && (final_ || c == 0)), "returned-exactly-when-matching");
            check(l.len() <= 1, "returned-once");
            if let Some(g) = l.first() { check(eqb(&g.account.data.data(), &data) && g.account.owner == TP[p as usize], "returned-data"); reach("matched") }
        }
    }
    check(matches!(st.get_program_accounts(TP[q as usize], None, commitment(c)), Err(AccountLoadingError::ShouldContainAnAccountFilter)), "no-conditions-refused");
    check(matches!(st.get_program_accounts(prog(0), Some(f), commitment(c)), Err(AccountLoadingError::WrongIndex)), "another-program-refused");
}
fn query_named() { query(false) }
fn query_extra() { query(true) }
/// One account: every order of updates and promotions.
fn th_one() { history(3, 3, 1, &[OWN0_MINT0, DEAD], &[], false, 3) }
fn th_one4() { history(3, 4, 1, &[OWN0_MINT0, DEAD], &[OWN0_MINT0], false, 3) }
/// Two accounts sharing a partial pubkey: what the promotions return.
fn th_pair() { history(2, 3, 2, &[OWN0_MINT0, DEAD], &[], false, 3) }
fn th_pair4() { history(3, 4, 2, &[OWN0_MINT0, DEAD], &[], false, 1) }
/// An account that is closed and created again as another kind.
fn th_kinds() { history(2, 3, 1, &[OWN0_MINT0, OWN1_MINT0, DEAD, MINT, MSIG], &[OWN0_MINT0, OWN1_MINT0], true, 1) }
fn th_kinds3() { history(2, 3, 1, &[OWN0_MINT0, OWN1_MINT0, DEAD, MINT, MSIG, OTHER_PROGRAM], &[MINT, MSIG], true, 3) }
fn th_kinds4() { history(2, 4, 1, &[OWN0_MINT0, DEAD, MINT, MSIG, OTHER_PROGRAM], &[OWN0_MINT0], true, 1) }
/// Two accounts sharing a partial pubkey, changing kind, owner and mint; all queries.
fn th_moved() { history(1, 2, 2, &[OWN0_MINT0, OWN1_MINT1, OWN0_MINT1, DEAD, MINT, MSIG], &[OWN0_MINT0, OWN1_MINT1, MINT], true, 1) }
fn th_moved3() { history(2, 3, 2, &[OWN0_MINT0, OWN1_MINT0, OWN0_MINT1, DEAD, MINT], &[OWN0_MINT0], true, 1) }
/// Updates in any set of slots, in order or in reverse, then notifications.
fn filled(nslots: usize, events: usize, kinds: &[u64], init: &[u64], queries: bool) {
    let st = tok_store(); let mut m = TModel::new(nslots);
    if !init.is_empty() { initial(&mut m, &st, 0, init) }
    let (reverse, late) = if queries { (false, false) } else { (bools("reverse"), bools("notified-late")) };
    if !late { announce(&mut m, &st) }
    for i in 0..nslots { let s = if reverse { nslots - 1 - i } else { i }; if queries || bools("filled") { update_in(&mut m, &st, 1, kinds, Some(s), None) } }
    if late { announce(&mut m, &st) }
    for e in 0..events { if e + 1 == events && bools("update") { update(&mut m, &st, 1, kinds) } else { promote(&mut m, &st, 1) } reads(&m, &st, 1, queries && e + 1 == events) }
    for c in 0..3 { if let Some(x) = st.get_account(ck(0), commitment(c)).unwrap() { obs("slot", x.updated_slot); obs_bytes("data", &x.account.data.data()) } }
}
fn tfill() { filled(3, 2, &[OWN0_MINT0, DEAD], &[OWN0_MINT0], false) }
fn tfill3() { filled(3, 3, &[OWN0_MINT0, DEAD], &[OWN0_MINT0], false) }
fn tfill_kinds() { filled(3, 2, &[OWN0_MINT0, OWN1_MINT0, DEAD, MINT], &[], true) }
/// Several accounts of one program, each changed in a slot of its own choice; then the slots are promoted.
fn spread(nslots: usize, accts: &[u64], kinds: &[u64], promotions: usize) {
    let st = tok_store(); let mut m = TModel::new(nslots); announce(&mut m, &st);
    for a in accts { update_in(&mut m, &st, 5, kinds, None, Some(*a)) }
    for _ in 0..promotions { promote(&mut m, &st, 5) }
    reads(&m, &st, 5, true);
    for c in 0..3 { for a in accts { if let Some(x) = st.get_account(ck(*a), commitment(c)).unwrap() { obs("slot", x.updated_slot); obs_bytes("data", &x.account.data.data()) } } }
}
fn th_spread() { spread(3, &[0, 2], &[OWN0_MINT0, OWN0_MINT1, DEAD], 1) }
fn th_spread3() { spread(3, &[0, 2, 4], &[OWN0_MINT0, OWN1_MINT0], 2) }
/// Updates at any level: confirmed ones wait for their slot like processed ones, final ones are final.
fn th_levels() { history_of(2, 3, 1, &[OWN0_MINT0, DEAD, OWN1_MINT0], &[OWN0_MINT0], true, 1, true) }
fn th_levels4() { history_of(3, 4, 1, &[OWN0_MINT0, DEAD, MSIG], &[OWN0_MINT0], true, 1, true) }
fn th_two() { history(2, 2, 2, &[OWN0_MINT0, OWN1_MINT0, OWN0_MINT1, DEAD, MINT, MSIG, OTHER_PROGRAM], &[], true, 3) }
crate::harnesses! { T; h_th_one => th_one, h_th_one4 => th_one4, h_th_pair => th_pair, h_th_pair4 => th_pair4, h_th_kinds => th_kinds, h_th_kinds3 => th_kinds3, h_th_kinds4 => th_kinds4, h_th_moved => th_moved, h_th_moved3 => th_moved3, h_th_two => th_two, h_th_spread => th_spread, h_th_spread3 => th_spread3, h_th_levels => th_levels, h_tfill => tfill, h_tfill3 => tfill3, h_tfill_kinds => tfill_kinds, h_th_levels4 => th_levels4, h_tquery => query_named, h_tquery_extra => query_extra, h_tsnap => snap_a, h_tsnap_all => snap_b, h_tsnap_bad => snap_malformed }
