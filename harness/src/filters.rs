//! Filter semantics, filter stores, JSON configuration.
use crate::util::*;
use lite_account_manager_common::{except_filter_store::ExceptFilterStore, mutable_filter_store::MutableFilterStore, simple_filter_store::SimpleFilterStore};
use solana_rpc_client_api::filter::RpcFilterType;

pub fn enc(kind: u64, b: &[u8]) -> MemcmpFilterData {
    use base64::Engine;
    match kind { 0 => MemcmpFilterData::Bytes(b.to_vec()), 1 => MemcmpFilterData::Base58(bs58::encode(b).into_string()), _ => MemcmpFilterData::Base64(base64::engine::general_purpose::STANDARD.encode(b)) }
}
fn pats() -> Vec<Vec<u8>> { vec![vec![], vec![0], vec![7], vec![0, 0], vec![0, 255], vec![1, 2, 3]] }

/// One memcmp filter in every encoding on symbolic data and offset, through every route that evaluates it.
fn memcmp_semantics() {
    let kind = choose("enc", 3);
    let n = choose("datalen", 5) as usize;
    let data = bytes("d", n);
    let pat = if kind == 0 { let m = choose("patlen", 4) as usize; bytes("p", m) } else { pick("pat", &pats()) };
    let offset = u64s("offset");
    let f = memcmp(offset, enc(kind, &pat));
    let want = spec_memcmp(offset, &pat, &data);
    check(f.allows(&data) == want, "memcmp-allows");
    let fd = match &f { AccountFilterType::Memcmp(m) => m.clone(), _ => unreachable!() };
    check(eqb(&fd.bytes(), &pat), "memcmp-bytes");
    check(fd.bytes_match(&data) == want, "memcmp-bytes-match");
    obs("want", want as u64);
}
/// Long patterns, found at any shift of the data.
fn memcmp_long() {
    let kind = choose("enc", 3);
    let n = pick("patlen", &[8usize, 31, 32, 33, 64]);
    let pat = if kind == 0 { long("p", n, 1) } else { (0..n).map(|i| (i as u8).wrapping_mul(7).wrapping_add(1)).collect() };
    let len = pick("datalen", &[0, n - 1, n, n + 1, 165]);
    let shift = if len > n { pick("shift", &[0, 1, len - n]) } else { 0 };
    let mut data: Vec<u8> = (0..len).map(|i| (i as u8).wrapping_sub(shift as u8).wrapping_mul(7).wrapping_add(1)).collect();
    for i in [0, n / 2, n - 1] { if shift + i < len { data[shift + i] = u8s("d") } }
    let offset = u64s("offset");
    let f = memcmp(offset, enc(kind, &pat));
    let want = spec_memcmp(offset, &pat, &data);
    check(f.allows(&data) == want, "memcmp-allows");
    let AccountFilterType::Memcmp(m) = &f else { unreachable!() };
    check(eqb(&m.bytes(), &pat), "memcmp-bytes"); check(m.bytes_match(&data) == want, "memcmp-bytes-match");
    let af = AccountFilter { accounts: vec![], program_id: Some(prog(1)), filters: Some(vec![f.clone()]) };
    let rpc = af.get_rpc_filter().unwrap();
    check(acc_data(key(1), acct(1, unc(data.clone()), prog(1)), 1, 1).allows(&rpc[0]) == want, "rpc-allows");
    if want { reach("matched") }
    obs("want", want as u64);
}
/// Conversion to and from the RPC representation, evaluated on (possibly compressed) account data.
fn rpc_conversion() {
    let n = choose("datalen", 4) as usize;
    let data = bytes("d", n);
    let nf = 1 + choose("nfilters", 2);
    let mut fs = vec![]; let mut want = vec![];
    for _ in 0..nf {
        match choose("kind", 4) {
            0 => { let s = u64s("size"); fs.push(AccountFilterType::Datasize(s)); want.push(s == n as u64) }
            k => { let pat = if k == 1 { bytes("p", 1) } else { pick("pat", &[vec![0u8], vec![1, 2]]) }; let o = u64s("off"); fs.push(memcmp(o, enc(k - 1, &pat))); want.push(spec_memcmp(o, &pat, &data)) }
        }
    }
    let m = method(choose("method", 2) * 3);
    let ad = acc_data(key(1), acct(1, Data::new(&data, m), prog(1)), 1, 1);
    let af = AccountFilter { accounts: vec![], program_id: Some(prog(1)), filters: Some(fs.clone()) };
    let rpc = af.get_rpc_filter();
    check(rpc.is_some(), "rpc-some");
    let rpc = rpc.unwrap();
    check(rpc.len() == fs.len(), "rpc-len");
    for i in 0..fs.len() {
        check(fs[i].allows(&data) == want[i], "filter-allows");
        check(ad.allows(&rpc[i]) == want[i], "rpc-allows");
        let back: AccountFilterType = (&rpc[i]).into();
        check(back.allows(&data) == want[i], "rpc-back");
        if let RpcFilterType::DataSize(_) = rpc[i] { check(matches!(back, AccountFilterType::Datasize(_)), "rpc-back-kind") } else { check(matches!(back, AccountFilterType::Memcmp(_)), "rpc-back-kind") }
    }
    let none = AccountFilter { accounts: vec![], program_id: None, filters: None };
    check(none.get_rpc_filter().is_none(), "rpc-none");
}

/// One condition of a filter with its plain meaning.
#[derive(Clone)]
enum Cond { Size(u64), Cmp(u64, Vec<u8>) }
impl Cond {
    fn holds(&self, d: &[u8]) -> bool { match self { Cond::Size(s) => *s == d.len() as u64, Cond::Cmp(o, b) => spec_memcmp(*o, b, d) } }
}
struct Spec { accounts: Vec<Pubkey>, program: Option<Pubkey>, conds: Option<Vec<Cond>> }
impl Spec {
    fn program_part(&self, owner: &Pubkey, d: &[u8]) -> bool {
        if self.program != Some(*owner) { return false }
        match &self.conds { None => true, Some(c) => { let mut r = true; for x in c { r &= x.holds(d) } r } }
    }
    fn matches(&self, k: &Pubkey, owner: &Pubkey, d: &[u8]) -> bool { self.accounts.contains(k) | self.program_part(owner, d) }
}
fn mk_cond(sym_size: bool) -> (AccountFilterType, Cond) {
    match choose("cond", 4) {
        0 => { let s = if sym_size { u64s("size") } else { choose("sizec", 3) }; (AccountFilterType::Datasize(s), Cond::Size(s)) }
        1 => { let o = u8s("off") as u64; let b = u8s("byte"); (memcmp(o, MemcmpFilterData::Bytes(vec![b])), Cond::Cmp(o, vec![b])) }
        2 => { let o = u8s("off") as u64; (memcmp(o, enc(1, &[5])), Cond::Cmp(o, vec![5])) }
        _ => { let o = u8s("off") as u64; (memcmp(o, enc(2, &[9, 1])), Cond::Cmp(o, vec![9, 1])) }
    }
}
/// A filter: shape chosen, numbers symbolic. `maxc`: most conditions per filter.
fn mk_filter(maxc: u64) -> (AccountFilter, Spec) {
    let shape = choose("shape", 3);
    let accounts = if shape == 0 { vec![key(1)] } else if shape == 1 { vec![] } else { vec![key(2), key(1)] };
    let program = if shape == 0 { None } else { Some(prog(choose("prog", 2) as u8)) };
    if program.is_none() { return (AccountFilter { accounts: accounts.clone(), program_id: None, filters: None }, Spec { accounts, program: None, conds: None }) }
    let nc = choose("nconds", maxc + 2);
    let (filters, conds) = if nc == maxc + 1 { (None, None) } else { let mut a = vec![]; let mut b = vec![]; for _ in 0..nc { let (x, y) = mk_cond(true); a.push(x); b.push(y) } (Some(a), Some(b)) };
    (AccountFilter { accounts: accounts.clone(), program_id: program, filters }, Spec { accounts, program, conds })
}
fn sym_account(maxlen: u64) -> (AccountData, Vec<u8>) {
    let k = key(1 + choose("acckey", 3) as u8);
    let owner = prog(choose("accowner", 3) as u8);
    let n = choose("acclen", maxlen + 1) as usize;
    let d = bytes("acc", n);
    (acc_data(k, acct(u64s("lamports"), unc(d.clone()), owner), u64s("slot"), u64s("wv")), d)
}
fn admission(nf: usize, maxc: u64, maxlen: u64) {
    let mut fs = vec![]; let mut specs = vec![];
    for _ in 0..nf { let (f, s) = mk_filter(maxc); fs.push(f); specs.push(s) }
    let (a, d) = sym_account(maxlen);
    let mut want = false; for s in &specs { want |= s.matches(&a.pubkey, &a.account.owner, &d) }
    let mut simple = SimpleFilterStore::default(); simple.add_account_filters(&fs);
    check(simple.satisfies(&a) == want, "simple-satisfies");
    let mut listed = false; for s in &specs { listed |= s.accounts.contains(&a.pubkey) }
    check(simple.contains_account(a.pubkey) == listed, "simple-contains-account");
    let mut except = ExceptFilterStore::default(); except.add_account_filters(&fs);
    check(except.satisfies(&a) == !want, "except-satisfies");
    let mutable = MutableFilterStore::default();
    for f in &fs { mutable.add_account_filters(&vec![f.clone()]); }
    check(mutable.satisfies(&a) == want, "mutable-satisfies");
    check(mutable.contains_account(a.pubkey) == listed, "mutable-contains-account");
    obs("want", want as u64);
}
/// Three filters, several of them for the same program.
fn few_filter() -> (AccountFilter, Spec) {
    let k = choose("filter", 7);
    if k == 0 { return (AccountFilter { accounts: vec![key(1)], program_id: None, filters: None }, Spec { accounts: vec![key(1)], program: None, conds: None }) }
    let p = Some(prog((k == 5) as u8)); let accounts = if k == 6 { vec![key(2)] } else { vec![] };
    let (filters, conds) = match k {
        1 => (None, None), 2 => (Some(vec![]), Some(vec![])),
        3 => { let b = u8s("byte"); (Some(vec![memcmp(0, MemcmpFilterData::Bytes(vec![b]))]), Some(vec![Cond::Cmp(0, vec![b])])) }
        _ => { let s = u64s("size"); (Some(vec![AccountFilterType::Datasize(s)]), Some(vec![Cond::Size(s)])) }
    };
    (AccountFilter { accounts: accounts.clone(), program_id: p, filters }, Spec { accounts, program: p, conds })
}
fn admission_three() {
    let l: Vec<(AccountFilter, Spec)> = (0..3).map(|_| few_filter()).collect();
    let n = choose("acclen", 2) as usize; let d = bytes("acc", n);
    let a = acc_data(key(1 + choose("acckey", 2) as u8), acct(1, unc(d.clone()), prog(choose("accowner", 2) as u8)), 1, 1);
    let mut want = false; for (_, s) in &l { want |= s.matches(&a.pubkey, &a.account.owner, &d) }
    let fs: Vec<AccountFilter> = l.iter().map(|x| x.0.clone()).collect();
    let mut simple = SimpleFilterStore::default(); simple.add_account_filters(&fs);
    check(simple.satisfies(&a) == want, "simple-satisfies");
    let mut one = SimpleFilterStore::default(); for f in &fs { one.add_account_filter(f) } check(one.satisfies(&a) == want, "simple-one-by-one");
    let mut except = ExceptFilterStore::default(); except.add_account_filters(&fs);
    check(except.satisfies(&a) == !want, "except-satisfies");
    let mutable = MutableFilterStore::default(); for f in &fs { mutable.add_account_filters(&vec![f.clone()]); }
    check(mutable.satisfies(&a) == want, "mutable-satisfies");
    obs("want", want as u64);
}
fn coverage_three() {
    let l: Vec<(AccountFilter, Spec)> = (0..3).map(|_| few_filter()).collect();
    let fs: Vec<AccountFilter> = l.iter().map(|x| x.0.clone()).collect();
    let mut simple = SimpleFilterStore::default(); simple.add_account_filters(&fs);
    for f in &fs { check(simple.contains_filter(f), "complete-same") }
    let (q, qs) = few_filter();
    if simple.contains_filter(&q) {
        let n = choose("acclen", 2) as usize; let d = bytes("acc", n);
        let a = acc_data(key(1 + choose("acckey", 2) as u8), acct(1, unc(d.clone()), prog(choose("accowner", 2) as u8)), 1, 1);
        assume(qs.matches(&a.pubkey, &a.account.owner, &d));
        check(simple.satisfies(&a), "simple-coverage-sound"); reach("covered");
    }
}
/// Two filters whose conditions are any of three, in any storage encoding of the account; coverage of a third such list.
fn subsets() {
    let n = u64s("size"); let (x, y) = (u8s("x"), u8s("y"));
    let all = [(AccountFilterType::Datasize(n), Cond::Size(n)), (memcmp(0, MemcmpFilterData::Bytes(vec![x])), Cond::Cmp(0, vec![x])), (memcmp(1, MemcmpFilterData::Bytes(vec![y])), Cond::Cmp(1, vec![y]))];
    let make = |m: u64| { let l: Vec<_> = (0..3).filter(|i| m >> i & 1 == 1).map(|i| all[i].clone()).collect();
        (AccountFilter { accounts: vec![], program_id: Some(prog(0)), filters: Some(l.iter().map(|c| c.0.clone()).collect()) }, Spec { accounts: vec![], program: Some(prog(0)), conds: Some(l.into_iter().map(|c| c.1).collect()) }) };
    let (a, b, q) = (make(choose("first", 8)), make(choose("second", 8)), make(choose("query", 8)));
    let fs = vec![a.0, b.0];
    let mut simple = SimpleFilterStore::default(); simple.add_account_filters(&fs);
    let mutable = MutableFilterStore::default(); for f in &fs { mutable.add_account_filters(&vec![f.clone()]) }
    let mut except = ExceptFilterStore::default(); except.add_account_filters(&fs);
    for f in &fs { check(simple.contains_filter(f) && mutable.contains_filter(f), "complete-same") }
    let d = bytes("acc", choose("acclen", 3) as usize);
    let acc = acc_data(key(1), acct(1, Data::new(&d, method(choose("method", 3) * 2)), prog(0)), 1, 1);
    let want = a.1.matches(&acc.pubkey, &prog(0), &d) | b.1.matches(&acc.pubkey, &prog(0), &d);
    check(simple.satisfies(&acc) == want, "simple-satisfies"); check(mutable.satisfies(&acc) == want, "mutable-satisfies"); check(except.satisfies(&acc) == !want, "except-satisfies");
    let c = simple.contains_filter(&q.0); check(mutable.contains_filter(&q.0) == c, "mutable-contains");
    if c { check(!q.1.matches(&acc.pubkey, &prog(0), &d) | want, "simple-coverage-sound"); reach("covered") }
}
fn admission_one() { admission(1, 2, 2) }
fn admission_two() { admission(2, 1, 2) }
fn admission_empty() {
    let (a, _) = sym_account(1);
    check(!SimpleFilterStore::default().satisfies(&a), "simple-empty");
    check(ExceptFilterStore::default().satisfies(&a), "except-empty");
    check(!MutableFilterStore::default().satisfies(&a), "mutable-empty");
    let (f, _) = mk_filter(1);
    let named = f.program_id.is_some() || !f.accounts.is_empty();
    check(SimpleFilterStore::default().contains_filter(&f) == !named, "simple-empty-contains");
    check(ExceptFilterStore::default().contains_filter(&f), "except-empty-contains");
}

/// A store that claims to cover a query admits every account the query can return.
fn coverage_sound(nf: usize, mc: u64, qc: u64) {
    let mut fs = vec![]; for _ in 0..nf { fs.push(mk_filter(mc).0) }
    let (q, qs) = mk_filter(qc);
    let mut simple = SimpleFilterStore::default(); simple.add_account_filters(&fs);
    let mutable = MutableFilterStore::default(); mutable.add_account_filters(&fs);
    let c = simple.contains_filter(&q);
    check(mutable.contains_filter(&q) == c, "mutable-contains");
    if c {
        let (a, d) = sym_account(2);
        assume(qs.matches(&a.pubkey, &a.account.owner, &d));
        check(simple.satisfies(&a), "simple-coverage-sound");
        reach("covered");
    }
}
fn coverage_sound_1() { coverage_sound(1, 2, 2) }
fn coverage_sound_2() { coverage_sound(2, 1, 1) }
/// Whatever was added is covered, in any encoding and order, and so is any stricter query.
fn coverage_complete() {
    let nc = choose("n", 3);
    let mut conds = vec![]; for _ in 0..nc { conds.push(mk_cond(true)) }
    let mut stored: Vec<AccountFilterType> = conds.iter().map(|c| c.0.clone()).collect();
    let other = AccountFilter { accounts: vec![key(3)], program_id: Some(prog(0)), filters: Some(vec![AccountFilterType::Datasize(77)]) };
    let f = AccountFilter { accounts: vec![key(1)], program_id: Some(prog(0)), filters: if choose("none", 2) == 1 { None } else { Some(stored.clone()) } };
    let mut simple = SimpleFilterStore::default();
    let first = choose("first", 2) == 1;
    if !first { simple.add_account_filter(&other) }
    simple.add_account_filter(&f);
    if first { simple.add_account_filter(&other) }
    check(simple.contains_filter(&f), "complete-same");
    // re-encode, reverse, extend
    let re = choose("reenc", 3);
    stored = conds.iter().map(|c| match &c.1 { Cond::Size(s) => AccountFilterType::Datasize(*s), Cond::Cmp(o, b) if b.len() > 1 || b[0] == 5 => memcmp(*o, enc(re, b)), Cond::Cmp(o, b) => memcmp(*o, MemcmpFilterData::Bytes(b.clone())) }).collect();
    if choose("rev", 2) == 1 { stored.reverse() }
    if choose("extend", 2) == 1 { let x = mk_cond(true).0; if choose("front", 2) == 1 { stored.insert(0, x) } else { stored.push(x) } }
    let q = AccountFilter { accounts: if choose("acc", 2) == 1 { vec![key(1)] } else { vec![] }, program_id: Some(prog(0)), filters: Some(stored) };
    check(simple.contains_filter(&q), "complete-stricter");
}
/// A store that excludes things never claims to cover a query that names an excluded account or program part.
fn coverage_except() {
    let (f, fs) = mk_filter(1);
    let (q, qs) = mk_filter(1);
    let mut e = ExceptFilterStore::default(); e.add_account_filters(&vec![f]);
    let c = e.contains_filter(&q);
    if c {
        for k in &q.accounts { check(!fs.accounts.contains(k), "except-account") }
        let (a, d) = sym_account(2);
        assume(qs.program_part(&a.account.owner, &d) & fs.program_part(&a.account.owner, &d));
        check(e.satisfies(&a), "except-coverage-sound");
    } else {
        // it must not refuse a query about things it does not exclude at all
        let mut touched = fs.program.is_some() && fs.program == qs.program; for k in &q.accounts { touched |= fs.accounts.contains(k) }
        check(touched, "except-coverage-complete");
    }
}
/// Filter configuration survives JSON.
fn json_roundtrip() {
    let shape = choose("shape", 4);
    let accounts = if shape & 1 == 1 { pick("accounts", &[vec![key(1), key(9)], vec![key(9), key(1), key(9)]]) } else { vec![] };
    let program_id = if shape & 2 == 2 { Some(prog(1)) } else { None };
    let filters = match choose("f", 7) {
        6 => Some(vec![AccountFilterType::Datasize(165), memcmp(0, MemcmpFilterData::Base58(String::new())), AccountFilterType::Datasize(165), memcmp(3, MemcmpFilterData::Base64("+/8=".into()))]),
        0 => None, 1 => Some(vec![]),
        2 => { let s = u8s("size"); assume(s < 100); let s = s as u64; Some(vec![AccountFilterType::Datasize(s)]) }
        3 => { let b = u8s("b"); assume(b < 20); let o = pick("off", &[0u64, 7, 255, 65536]); Some(vec![memcmp(o, MemcmpFilterData::Bytes(vec![b, 0, 255]))]) }
        4 => Some(vec![memcmp({ let o = u8s("off"); assume(o < 10); o as u64 }, MemcmpFilterData::Base58("3Mc6vR".into())), AccountFilterType::Datasize(165)]),
        _ => Some(vec![AccountFilterType::Datasize(u64::MAX), memcmp(u64::MAX, MemcmpFilterData::Base64("AQID".into()))]),
    };
    let f = AccountFilter { accounts, program_id, filters };
    let s = serde_json::to_string(&vec![f.clone()]);
    check(s.is_ok(), "json-serializes");
    let s = s.unwrap();
    let r: Result<AccountFilters, _> = serde_json::from_str(&s);
    check(r.is_ok(), "json-parses");
    let r = r.unwrap();
    check(r.len() == 1, "json-len");
    check(r[0] == f, "json-roundtrip");
}
/// Malformed configuration is reported as an error, not a crash. @ is any digit.
fn json_malformed() {
    let k = pick("k", &[r#"{"programId": @}"#, r#"{"programId": "x@"}"#, r#"{"accounts": [@]}"#, r#"{"accounts": ["z@"]}"#, r#"{"filters": @}"#, r#"{"filters": [{"datasize": "@"}]}"#, r#"{"filters": [{"memcmp": {}}]}"#, r#"{"programId": {}}"#,
        r#"{"accounts": "@"}"#, r#"{"accounts": {}}"#, r#"{"accounts": @}"#, r#"@"#, r#"[@]"#, r#""@""#, r#"{"filters": [{"memory": @}]}"#, r#"{"filters": [{"datasize": -1}]}"#, r#"{"filters": [{"datasize": 2.5}]}"#, r#"{"filters": [{"datasize": @, "memcmp": @}]}"#,
        r#"{"filters": [{"memcmp": {"offset": @}}]}"#, r#"{"filters": [{"memcmp": {"data": {"bytes": [@]}}}]}"#, r#"{"filters": [{"memcmp": {"offset": -1, "data": {"bytes": [@]}}}]}"#, r#"{"filters": [{"memcmp": {"offset": @, "data": {"bytes": [256]}}}]}"#, r#"{"filters": [{"memcmp": {"offset": @, "data": {"base32": "a"}}}]}"#,
        r#"{"filters": [{"memcmp": {"offset": @, "data": {"base58": "0O"}}}]}"#, r#"{"filters": [{"memcmp": {"offset": @, "data": {"base64": "A?=="}}}]}"#, r#"{"filters": [{"memcmp": {"offset": @, "data": "abc"}}]}"#,
        r#"{"accounts": ["4MangoMjqJ2firMokCjjGgoK8d4MXcrgL7XJaL3w6fV@", "4MangoMjqJ2firMokCjjGgoK8d4MXcrgL7XJaL3w6fVgQQ"]}"#, r#"{"accounts": ["4MangoMjqJ2firMokCjjGgoK8d4MXcrgL7XJaL3w6fVg", "4Mango"]}"#, r#"{"programId": "4MangoMjqJ2firMokCjjGgoK8d4MXcrgL7XJaL3w"}"#, r#"{"programId": "1@""#, r#"{"filters": [{"datasize": @}, 5]}"#]);
    let mut b = k.as_bytes().to_vec();
    if let Some(p) = b.iter().position(|c| *c == b'@') { let x = u8s("x"); assume((x >= b'0') & (x <= b'9')); b[p] = x; reach("digit") }
    ctx("malformed-config");
    let r: Result<AccountFilter, _> = serde_json::from_slice(&b);
    check(r.is_err(), "json-malformed-error");
    // one malformed filter refuses the whole configuration
    if choose("list", 2) == 1 { let mut l = b"[{\"accounts\": []}, ".to_vec(); l.extend_from_slice(&b); l.push(b']'); let r: Result<AccountFilters, _> = serde_json::from_slice(&l); check(r.is_err(), "json-malformed-list-error") }
}
/// Documents as users write them.
fn json_documents() {
    let f: Result<AccountFilters, _> = serde_json::from_str(r#"[{"programId": "4MangoMjqJ2firMokCjjGgoK8d4MXcrgL7XJaL3w6fVg", "filters": [{"memcmp": {"offset": 3, "data": {"base58": "3Mc6vR"}}}, {"datasize": 200}]}, {"accounts": ["4MangoMjqJ2firMokCjjGgoK8d4MXcrgL7XJaL3w6fVg", "11111111111111111111111111111111"], "comment": 1}, {"programId": null, "accounts": null}, {"filters": []}]"#);
    check(f.is_ok(), "document-read");
    let f = f.unwrap();
    let m: Pubkey = "4MangoMjqJ2firMokCjjGgoK8d4MXcrgL7XJaL3w6fVg".parse().unwrap();
    check(f.len() == 4, "document-len");
    check(f[0].accounts.is_empty() && f[0].program_id == Some(m) && f[0].filters == Some(vec![memcmp(3, MemcmpFilterData::Base58("3Mc6vR".into())), AccountFilterType::Datasize(200)]), "document-program");
    check(f[1].accounts == vec![m, Pubkey::new_from_array([0; 32])] && f[1].program_id.is_none() && f[1].filters.is_none(), "document-accounts");
    check(f[2].accounts.is_empty() && f[2].program_id.is_none() && f[2].filters.is_none(), "document-null");
    check(f[3].accounts.is_empty() && f[3].program_id.is_none() && f[3].filters == Some(vec![]), "document-empty-filters");
}
fn json_null_program() {
    ctx("null-program");
    let r: Result<AccountFilter, _> = serde_json::from_str("{\"accounts\": [], \"programId\": null, \"filters\": null}");
    check(r.is_ok(), "json-null");
    if let Ok(f) = r { check(f.program_id.is_none() && f.filters.is_none() && f.accounts.is_empty(), "json-null-value") }
}
crate::harnesses! { T;
    h_memcmp => memcmp_semantics, h_memcmp_long => memcmp_long, h_admit3 => admission_three, h_subsets => subsets, h_cov3 => coverage_three, h_rpc => rpc_conversion,
    h_admit1 => admission_one, h_admit2 => admission_two, h_admit0 => admission_empty,
    h_cov_sound1 => coverage_sound_1, h_cov_sound2 => coverage_sound_2, h_cov_complete => coverage_complete, h_cov_except => coverage_except,
    h_json_rt => json_roundtrip, h_json_bad => json_malformed, h_json_null => json_null_program, h_json_doc => json_documents,
}
