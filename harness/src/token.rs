//! The token storage: record codec, conversions, index storage, commitment levels, queries, snapshots.
use crate::util::*;
use dashmap::DashMap;
use lite_token_account_storage::{account_types::*, inmemory_token_account_storage::InmemoryTokenAccountStorage, inmemory_token_storage::TokenProgramAccountsStorage, token_account_storage_interface::TokenAccountStorageInterface, token_program_utils::*};
use solana_sdk::{program_option::COption, program_pack::Pack};
use std::{collections::HashSet, sync::atomic::AtomicU32};

pub const TP: [Pubkey; 2] = [spl_token::ID, spl_token_2022::ID];
fn symkey(n: &str) -> Pubkey { Pubkey::new_from_array(bytes(n, 32).try_into().unwrap()) }
fn eqk(a: &Pubkey, b: &Pubkey) -> bool { eqb(&a.to_bytes(), &b.to_bytes()) }
fn program(i: u64) -> Program { if i == 0 { Program::TokenProgram } else { Program::Token2022Program } }
fn state(i: u64) -> TokenProgramAccountState { match i { 0 => TokenProgramAccountState::Uninitialized, 1 => TokenProgramAccountState::Initialized, _ => TokenProgramAccountState::Frozen } }
fn eqo<T>(a: &Option<T>, b: &Option<T>, f: impl Fn(&T, &T) -> bool) -> bool { match (a, b) { (None, None) => true, (Some(a), Some(b)) => f(a, b), _ => false } }

/// Every token account record is decoded to what was encoded.
fn record_codec() {
    // extensions of any size, the largest with nothing else
    let extra = choose("extra", 8); let opt = |n: &str| extra != 7 && bools(n);
    let t = TokenAccount {
        program: program(choose("program", 2)), is_deleted: bools("deleted"), pubkey: symkey("pk"), owner: symkey("owner"), mint: u32s("mint"), amount: u64s("amount"), state: state(choose("state", 3)),
        delegate: if opt("has-delegate") { Some((symkey("delegate"), u64s("delegated"))) } else { None }, is_native: if opt("has-native") { Some(u64s("native")) } else { None },
        close_authority: if opt("has-close") { Some(symkey("close")) } else { None }, additional_data: match extra { 0 => None, 5 => Some(long("x", 83, 1)), 6 => Some(long("x", 300, 1)), 7 => Some(long("x", 70000, 1)), n => Some(bytes("x", n as usize - 1)) },
    };
    let b = t.to_bytes();
    let len = 78 + if t.delegate.is_some() { 40 } else { 0 } + if t.is_native.is_some() { 8 } else { 0 } + if t.close_authority.is_some() { 32 } else { 0 } + t.additional_data.as_ref().map_or(0, |x| 4 + x.len());
    check(b.len() == len, "record-length");
    check(eqk(&TokenAccount::get_pubkey_from_binary(&b), &t.pubkey), "record-pubkey");
    check(eqk(&TokenAccount::get_owner_from_binary(&b), &t.owner), "record-owner");
    check(TokenAccount::get_mint_index_from_binary(&b) == t.mint, "record-mint");
    let r = TokenAccount::from_bytes(&b);
    check((r.program == t.program) && (r.is_deleted == t.is_deleted) && (r.state == t.state), "round-trip-kind");
    check((r.mint == t.mint) & (r.amount == t.amount) & eqk(&r.pubkey, &t.pubkey) & eqk(&r.owner, &t.owner), "round-trip-fixed");
    check(eqo(&r.delegate, &t.delegate, |a, b| eqk(&a.0, &b.0) & (a.1 == b.1)), "round-trip-delegate");
    check(eqo(&r.is_native, &t.is_native, |a, b| a == b), "round-trip-native");
    check(eqo(&r.close_authority, &t.close_authority, eqk), "round-trip-close");
    check(eqo(&r.additional_data, &t.additional_data, |a, b| eqb(a, b)), "round-trip-extra");
    obs_bytes("b", &b);
}

/// Every stored record, with any flags, is decoded to the fields it holds and encoded to the same bytes.
fn record_decode() {
    let flags = u8s("flags"); assume(((flags & 2) == 0) & (((flags >> 2) & 3) != 3));
    let del = u8s("deleted"); assume(del <= 1);
    let mut b = vec![flags, del]; b.extend_from_slice(&bytes("fixed", 76));
    let on = |i: u8| (flags >> i) & 1 == 1;
    let mut at = 78;
    let d = on(4); let dat = at; if d { b.extend_from_slice(&bytes("delegate", 40)); at += 40 }
    let n = on(5); let nat = at; if n { b.extend_from_slice(&bytes("native", 8)); at += 8 }
    let c = on(6); let cat = at; if c { b.extend_from_slice(&bytes("close", 32)); at += 32 }
    let x = on(7); let xat = at; if x { let k = choose("extra", 4) as usize; b.extend_from_slice(&(k as u32).to_le_bytes()); b.extend_from_slice(&bytes("x", k)) }
    let r = TokenAccount::from_bytes(&b);
    let le = |a: usize| u64::from_le_bytes(b[a..a + 8].try_into().unwrap());
    check((r.program == Program::Token2022Program) == (flags & 1 == 1), "decoded-program");
    let st = (flags >> 2) & 3; check((r.state == TokenProgramAccountState::Initialized) == (st == 0) && (r.state == TokenProgramAccountState::Frozen) == (st == 1), "decoded-state");
    check(r.is_deleted == (del == 1), "decoded-deleted");
    check(eqb(&r.pubkey.to_bytes(), &b[2..34]) & eqb(&r.owner.to_bytes(), &b[34..66]) & eqb(&r.mint.to_le_bytes(), &b[66..70]) & (r.amount == le(70)), "decoded-fixed");
    check(r.delegate.is_some() == d && r.is_native.is_some() == n && r.close_authority.is_some() == c && r.additional_data.is_some() == x, "decoded-options");
    if let Some(v) = &r.delegate { check(eqb(&v.0.to_bytes(), &b[dat..dat + 32]) & (v.1 == le(dat + 32)), "decoded-delegate") }
    if let Some(v) = r.is_native { check(v == le(nat), "decoded-native") }
    if let Some(v) = &r.close_authority { check(eqb(&v.to_bytes(), &b[cat..cat + 32]), "decoded-close") }
    if let Some(v) = &r.additional_data { check(eqb(v, &b[xat + 4..]), "decoded-extra") }
    check(eqb(&r.to_bytes(), &b), "encoded-again");
    obs_bytes("b", &r.to_bytes());
}

pub fn co<T>(o: Option<T>) -> COption<T> { match o { Some(x) => COption::Some(x), None => COption::None } }
/// Packed base state of a token account (the two programs share the layout).
pub fn tok_bytes(mint: Pubkey, owner: Pubkey, amount: u64, st: u64, delegate: Option<(Pubkey, u64)>, native: Option<u64>, close: Option<Pubkey>) -> Vec<u8> {
    let mut v = vec![];
    let key = |v: &mut Vec<u8>, k: &Option<Pubkey>| { v.extend_from_slice(&[k.is_some() as u8, 0, 0, 0]); v.extend_from_slice(&k.unwrap_or_default().to_bytes()) };
    v.extend_from_slice(&mint.to_bytes()); v.extend_from_slice(&owner.to_bytes()); v.extend_from_slice(&amount.to_le_bytes());
    key(&mut v, &delegate.map(|x| x.0)); v.push(st as u8);
    v.extend_from_slice(&[native.is_some() as u8, 0, 0, 0]); v.extend_from_slice(&native.unwrap_or(0).to_le_bytes());
    v.extend_from_slice(&delegate.map_or(0, |x| x.1).to_le_bytes()); key(&mut v, &close);
    v
}
pub fn mint_bytes(auth: Option<Pubkey>, supply: u64, decimals: u8, init: bool, freeze: Option<Pubkey>) -> Vec<u8> {
    let mut v = vec![];
    let key = |v: &mut Vec<u8>, k: &Option<Pubkey>| { v.extend_from_slice(&[k.is_some() as u8, 0, 0, 0]); v.extend_from_slice(&k.unwrap_or_default().to_bytes()) };
    key(&mut v, &auth); v.extend_from_slice(&supply.to_le_bytes()); v.push(decimals); v.push(init as u8); key(&mut v, &freeze);
    v
}
pub fn multisig_bytes(m: u8, n: u8, init: bool, signers: &[Pubkey]) -> Vec<u8> {
    let mut v = vec![m, n, init as u8]; for i in 0..11 { v.extend_from_slice(&signers.get(i).copied().unwrap_or_default().to_bytes()) } v
}
pub struct Maps { by_pk: Arc<DashMap<Pubkey, MintIndex>>, pks: Arc<DashMap<MintIndex, Pubkey>>, n: Arc<AtomicU32> }
pub fn maps() -> Maps { Maps { by_pk: Arc::new(DashMap::new()), pks: Arc::new(DashMap::new()), n: Arc::new(AtomicU32::new(0)) } }
impl Maps { pub fn kind(&self, a: &AccountData) -> anyhow::Result<TokenProgramAccountType> { get_token_program_account_type(a, &self.by_pk, &self.pks, &self.n) } pub fn back(&self, t: &TokenProgramAccountType, s: u64, w: u64) -> Option<AccountData> { token_program_account_to_solana_account(t, s, w, &self.pks) } }
pub fn tdata(k: Pubkey, p: u64, lamports: u64, data: Vec<u8>, slot: u64, wv: u64) -> AccountData { acc_data(k, Account { lamports, data: Data::Uncompressed(data), owner: TP[p as usize], executable: false, rent_epoch: u64::MAX }, slot, wv) }
fn ext(kind: u8) -> Vec<u8> { match choose("ext", 6) { 0 => vec![], n => { let mut v = vec![kind]; v.extend_from_slice(&if n > 3 { long("x", [83, 300][n as usize - 4], 3) } else { bytes("x", n as usize - 1) }); v } } }
fn same(b: &AccountData, k: &Pubkey, p: u64, data: &[u8], slot: u64, wv: u64) {
    check(eqk(&b.pubkey, k), "rebuilt-address");
    check(b.account.owner == TP[p as usize] && !b.account.executable, "rebuilt-program");
    check(b.account.data.len() == data.len(), "rebuilt-length");
    check(eqb(&b.account.data.data(), data), "rebuilt-data");
    check((b.updated_slot == slot) & (b.write_version == wv), "rebuilt-slot");
    obs_bytes("data", &b.account.data.data());
}
/// A token account of either program comes back with the same data.
fn conv_token() {
    let m = maps(); let p = choose("program", 2);
    let pk = symkey("pk");
    let o = |n: &str| if bools("has") { Some(symkey(n)) } else { None };
    let delegate = if bools("has-delegate") { Some((symkey("delegate"), u64s("delegated"))) } else { None };
    let native = if bools("has-native") { Some(u64s("native")) } else { None };
    let st = choose("state", 3);
    let mut d = tok_bytes(key(30), symkey("owner"), u64s("amount"), st, delegate, native, o("close"));
    if p == 1 { let x = ext(2); d.extend_from_slice(&x) }
    let lam = u64s("lamports"); let (s, w) = (u64s("slot"), u64s("wv"));
    let a = tdata(pk, p, lam, d.clone(), s, w);
    // another mint first, so that indexes differ
    if bools("other-mint") { let _ = m.kind(&tdata(key(9), 0, 1, tok_bytes(key(31), key(8), 0, 1, None, None, None), 0, 0)); }
    let t = m.kind(&a);
    if lam == 0 { check(matches!(&t, Ok(TokenProgramAccountType::Deleted(k)) if eqk(k, &pk)), "no-lamports-is-deleted"); check(m.back(&t.unwrap(), s, w).is_none(), "deleted-has-no-account"); return }
    let t = match t { Ok(t) => t, Err(_) => { check(false, "token-account-recognized"); return } };
    check(matches!(&t, TokenProgramAccountType::TokenAccount(_)), "token-account-kind");
    check(eqk(&t.pubkey(), &pk), "kind-address");
    if let TokenProgramAccountType::TokenAccount(x) = &t { check(x.state == state(st) && !x.is_deleted && x.program == program(p), "token-account-state") }
    let b = m.back(&t, s, w);
    check(b.is_some(), "token-account-rebuilt");
    let b = b.unwrap();
    // lamports are not kept: rent exempt
    check(b.account.lamports == (128 + d.len() as u64) * 6960 && b.account.rent_epoch == u64::MAX, "token-account-rent-exempt");
    same(&b, &pk, p, &d, s, w);
    reach("token");
}
fn conv_mint() {
    let m = maps(); let p = choose("program", 2); let pk = symkey("pk");
    let o = |n: &str| if bools("has") { Some(symkey(n)) } else { None };
    let mut d = mint_bytes(o("auth"), u64s("supply"), u8s("decimals"), bools("init"), o("freeze"));
    if p == 1 { let x = ext(1); if !x.is_empty() { d.resize(165, 0); d.extend_from_slice(&x) } }
    let lam = u64s("lamports"); assume(lam > 0); let (s, w) = (u64s("slot"), u64s("wv"));
    let t = m.kind(&tdata(pk, p, lam, d.clone(), s, w));
    let t = match t { Ok(t) => t, Err(_) => { check(false, "mint-recognized"); return } };
    check(matches!(&t, TokenProgramAccountType::Mint(_)) && eqk(&t.pubkey(), &pk), "mint-kind");
    let b = m.back(&t, s, w).unwrap();
    check(b.account.lamports == lam, "mint-lamports"); check(b.account.rent_epoch == u64::MAX, "mint-rent-exempt");
    same(&b, &pk, p, &d, s, w);
}
fn conv_multisig() {
    let m = maps(); let p = choose("program", 2); let pk = symkey("pk");
    // signers, one of which may be the default key
    let k = choose("signers", 12) as usize;
    let hole = choose("hole", 13) as usize;
    let signers: Vec<Pubkey> = (0..k).map(|i| if i == hole { Pubkey::default() } else { Pubkey::new_from_array([u8s("signer").wrapping_add(i as u8); 32]) }).collect();
    let d = multisig_bytes(u8s("m"), u8s("n"), bools("init"), &signers);
    let lam = u64s("lamports"); assume(lam > 0); let (s, w) = (u64s("slot"), u64s("wv"));
    let t = m.kind(&tdata(pk, p, lam, d.clone(), s, w));
    let t = match t { Ok(t) => t, Err(_) => { check(false, "multisig-recognized"); return } };
    check(matches!(&t, TokenProgramAccountType::MultiSig(..)) && eqk(&t.pubkey(), &pk), "multisig-kind");
    let b = m.back(&t, s, w).unwrap();
    check(b.account.lamports == lam, "multisig-lamports"); check(b.account.rent_epoch == u64::MAX, "multisig-rent-exempt");
    same(&b, &pk, p, &d, s, w);
}
/// What an account is depends on its program, length and type byte; anything else is refused without a crash.
fn classify() {
    let m = maps(); let p = choose("program", 3);
    let lens = [0usize, 1, 81, 82, 83, 164, 165, 166, 167, 200, 354, 355, 356];
    let n = lens[choose("len", lens.len() as u64) as usize];
    let mut d = vec![0u8; n];
    // tags and type bytes take any value
    let (tag, st, ty) = (u8s("tag"), u8s("state"), u8s("type"));
    if n > 165 { d[165] = ty }
    if n >= 108 { d[72] = tag; d[108] = st }
    if n == 82 { d[0] = tag; d[45] = st }
    let lam = bools("alive") as u64;
    let owner = if p == 2 { prog(0) } else { TP[p as usize] };
    let a = acc_data(key(1), Account { lamports: lam, data: Data::Uncompressed(d), owner, executable: false, rent_epoch: 0 }, 1, 1);
    ctx("classify");
    let r = m.kind(&a);
    let got = match &r { Ok(TokenProgramAccountType::TokenAccount(_)) => 1, Ok(TokenProgramAccountType::Mint(_)) => 2, Ok(TokenProgramAccountType::MultiSig(..)) => 3, Ok(TokenProgramAccountType::Deleted(_)) => 4, Err(_) => 0 };
    let mint_ok = |tag: u8, st: u8| (tag <= 1) & (st <= 1); let tok_ok = |tag: u8, st: u8| (tag <= 1) & (st <= 2);
    if p == 2 || lam == 0 { check(got == 4, "foreign-or-empty-is-deleted") }
    else if n == 82 { check((got == 2) == mint_ok(tag, st) && (got == 2 || got == 0), "mint-by-length") }
    else if n == 165 { check((got == 1) == tok_ok(tag, st) && (got == 1 || got == 0), "token-by-length") }
    else if n == 355 { check(got == 3, "multisig-by-length") }
    else if p == 1 && n > 165 {
        if ty == 2 { check((got == 1) == tok_ok(tag, st) && (got == 1 || got == 0), "token-by-type") }
        else if ty == 1 { check(got == 2, "mint-by-type") }
        else { check(got == 0, "unknown-type-refused") }
    } else { check(got == 0, "unknown-length-refused") }
    check(m.by_pk.len() == (got == 1) as usize && m.pks.len() == m.by_pk.len(), "mint-registered");
    obs("kind", got);
}
/// A mint gets one index for ever, different mints get different ones.
fn mint_index() {
    let m = maps(); let ks = [key(1), key(2), Pubkey::new_from_array([1; 32])];
    let mut seen: Vec<(usize, u32)> = vec![];
    for _ in 0..4 { let i = choose("mint", 3) as usize; let x = get_or_create_mint_index(ks[i], &m.by_pk, &m.pks, &m.n);
        for (j, y) in &seen { check((*j == i) == (*y == x), "mint-index-unique") }
        check(*m.by_pk.get(&ks[i]).unwrap() == x && *m.pks.get(&x).unwrap() == ks[i], "mint-index-kept"); seen.push((i, x)) }
}

/// Keys sharing the first four bytes, and one that does not.
pub fn ck(i: u64) -> Pubkey { let mut b = [7u8; 32]; if i == 2 { b[0] = 9 } b[4 + 27 * (i as usize % 2)] = 40 + i as u8; Pubkey::new_from_array(b) }
/// A key with one of three prefixes (the last two differ from the first within and after the leading four bytes); three later bytes are left to the solver.
fn prefixed(n: &str, p: u64) -> Pubkey { let mut b = [7u8; 32]; if p == 1 { b[3] = 9 } if p == 2 { b[6] = 9 } b[9] = u8s(n); b[17] = u8s(n); b[31] = u8s(n); Pubkey::new_from_array(b) }
struct Rec { key: Pubkey, index: u32, amount: u64, program: u64, closed: bool }
/// The store of token accounts behaves as a map by whole pubkey, whatever the keys' bytes.
fn index_storage(n: usize, closed: bool) {
    let st = InmemoryTokenAccountStorage::default();
    let mut model: Vec<Rec> = vec![];
    let mut used: HashSet<u32> = HashSet::new();
    for _ in 0..n {
        let k = prefixed("key", choose("prefix", 3));
        let at = model.iter().position(|r| r.key == k);
        if choose("op", 2) == 0 {
            let amount = u64s("amount"); let p = choose("program", 2); let end = closed && bools("closed");
            let (x, new) = st.save_or_update(TokenAccount { program: program(p), is_deleted: end, pubkey: k, owner: key(1), mint: 3, amount, state: state(1), delegate: None, is_native: None, close_authority: None, additional_data: None });
            check(new == at.is_none(), "saved-as-new");
            if let Some(i) = at { check(model[i].index == x, "index-kept"); model[i].amount = amount; model[i].program = p; model[i].closed = end }
            else { check(!model.iter().any(|r| r.index == x), "index-of-another"); model.push(Rec { key: k, index: x, amount, program: p, closed: end }) }
            used.insert(x);
        } else { st.delete(&k); if let Some(i) = at { model.remove(i); } }
        check(st.contains(&k) == model.iter().find(|r| r.key == k).map(|r| r.index), "contains");
        for m in &model {
            check(st.contains(&m.key) == Some(m.index), "contains-kept");
            let g = st.get_by_pubkey(&m.key);
            check(g.is_some(), "get-by-pubkey");
            if let Some(g) = &g { check(eqk(&g.pubkey, &m.key) & (g.amount == m.amount), "get-value"); check(g.program == program(m.program) && g.is_deleted == m.closed, "get-kind") }
            let l = st.get_by_index([m.index].into_iter().collect()).unwrap(); check(l.len() == 1, "get-by-index"); check(eqk(&l[0].pubkey, &m.key) & (l[0].amount == m.amount), "get-by-index-value")
        }
    }
    // any key at all
    let q = prefixed("query", choose("query-prefix", 3));
    let m = model.iter().find(|r| r.key == q);
    check(st.contains(&q) == m.map(|m| m.index), "query-contains");
    let g = st.get_by_pubkey(&q); check(g.is_some() == m.is_some(), "query-get");
    if let (Some(g), Some(m)) = (&g, m) { check(eqk(&g.pubkey, &q) & (g.amount == m.amount), "query-value") }
    let all = st.get_by_index(used.iter().copied().collect()).unwrap();
    check(all.iter().filter(|a| !a.is_deleted).count() == model.iter().filter(|m| !m.closed).count(), "get-by-indexes-live");
    check(st.get_by_index([1000u32].into_iter().collect()).unwrap().is_empty(), "unknown-index");
    for p in 0..2u64 {
        let s = st.create_snapshot(program(p)).unwrap();
        check(s.len() == model.iter().filter(|m| m.program == p && !m.closed).count(), "snapshot-count");
        for m in &model { if m.program == p && !m.closed { let l: Vec<_> = s.iter().filter(|b| TokenAccount::get_pubkey_from_binary(b) == m.key).collect(); check(l.len() == 1, "snapshot-has"); if let Some(b) = l.first() { check(TokenAccount::from_bytes(b).amount == m.amount, "snapshot-value") } } }
    }
    obs("n", model.len() as u64); for m in &model { obs("amount", m.amount) }
}
fn index_2() { index_storage(2, true) }
fn index_3() { index_storage(3, false) }
fn index_4() { index_storage(4, true) }

/// The two addresses are taken from the filters exactly when they describe token accounts.
fn owner_mint_filter() {
    let p = choose("program", 3); let pid = if p == 2 { prog(0) } else { TP[p as usize] };
    let n = choose("n", 4);
    let mut f = vec![]; let mut size: Option<u64> = None; let mut ty: Option<Vec<u8>> = None; let mut owner = None; let mut mint = None;
    for _ in 0..n {
        match choose("kind", 7) {
            0 => { let s = u64s("size"); f.push(AccountFilterType::Datasize(s)); size = Some(s) }
            1 => { let b = { let n = choose("typelen", 3) as usize; bytes("type", n) }; f.push(memcmp(165, MemcmpFilterData::Bytes(b.clone()))); if p == 1 { ty = Some(b) } }
            2 => { if choose("len", 2) == 0 { let k = symkey("owner"); f.push(memcmp(32, MemcmpFilterData::Bytes(k.to_bytes().to_vec()))); owner = Some(k) } else { f.push(memcmp(32, MemcmpFilterData::Bytes(vec![3; 31 + 2 * choose("longer", 2) as usize]))) } }
            3 => { if choose("len", 2) == 0 { let k = symkey("mint"); f.push(memcmp(0, MemcmpFilterData::Bytes(k.to_bytes().to_vec()))); mint = Some(k) } else { f.push(memcmp(0, MemcmpFilterData::Bytes(vec![3; 31 + 2 * choose("longer", 2) as usize]))) } }
            4 => { let k = key(40); f.push(memcmp(32, crate::filters::enc(1 + choose("encoding", 2), &k.to_bytes()))); owner = Some(k) }
            5 => { let k = key(41); f.push(memcmp(0, crate::filters::enc(1 + choose("encoding", 2), &k.to_bytes()))); mint = Some(k) }
            _ => { let o = u64s("off"); assume((o != 0) & (o != 32) & (o != 165)); f.push(memcmp(o, MemcmpFilterData::Bytes(vec![1; 32]))) }
        }
    }
    let r = get_spl_token_owner_mint_filter(&pid, &f);
    let mut describes = size == Some(165);
    if let Some(t) = &ty { if t.len() == 1 { describes |= t[0] == 2 } }
    if describes { check(eqo(&r.0, &owner, eqk), "owner-address"); check(eqo(&r.1, &mint, eqk), "mint-address"); reach("token-accounts") } else { check(r.0.is_none() && r.1.is_none(), "not-token-accounts") }
}
crate::harnesses! { T; h_tok_codec => record_codec, h_tok_decode => record_decode, h_conv_token => conv_token, h_conv_mint => conv_mint, h_conv_msig => conv_multisig, h_classify => classify, h_mint_index => mint_index, h_tidx2 => index_2, h_tidx3 => index_3, h_tidx4 => index_4, h_ownermint => owner_mint_filter }
