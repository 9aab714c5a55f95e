CF='common/src/account_filter.rs'; CS='common/src/simple_filter_store.rs'; CD='common/src/account_data.rs'; AB='account_storage/src/account_data_by_commitment.rs'; AI='account_storage/src/inmemory_account_store.rs'; SP='account_storage/src/storage_by_program_id.rs'
BUGS=[
dict(id='filter_text_at_end',prop='C01',needs='a memcmp pattern given as Base58 or Base64 text whose match ends exactly at the end of the account data',breaks='an encoded pattern never matches the last bytes of the data',
 edits=[(CF,"""            let bytes = self.bytes();
            let offset = self.offset as usize;
            if offset > data.len() {
                return false;
            }
            if data[offset..].len() < bytes.len() {""","""            let bytes = self.bytes();
            let offset = self.offset as usize;
            if offset > data.len() {
                return false;
            }
            if data[offset..].len() <= bytes.len() {""")],
 demo=r'''
#[test] fn demo() {
    let f = |d| AccountFilterType::Memcmp(MemcmpFilter { offset: 2, data: d });
    assert!(f(MemcmpFilterData::Bytes(vec![1, 2, 3])).allows(&[9, 9, 1, 2, 3]));
    assert!(f(MemcmpFilterData::Base64("AQID".into())).allows(&[9, 9, 1, 2, 3]));
    assert!(f(MemcmpFilterData::Base64("AQID".into())).allows(&[9, 9, 1, 2, 3, 4]));
}
'''),
dict(id='allow_all_after_conditions',prop='C02',needs='a program configured with conditions first and without conditions later',breaks='the later unconditional filter of the program is ignored',
 edits=[(CS,"""                                // the new filters will subscribe to all the filters
                                *program_filters = ProgramIdFilters::AllowAll;
""","""                                // the new filters will subscribe to all the filters
                                current_filters.dedup();
""")],
 demo=r'''
#[test] fn demo() {
    let mut f = SimpleFilterStore::default();
    f.add_account_filters(&vec![AccountFilter { accounts: vec![], program_id: Some(prog(0)), filters: Some(vec![AccountFilterType::Datasize(3)]) }]);
    f.add_account_filters(&vec![filter(0)]);
    assert!(f.satisfies(&acc(1, 0, 5, &[1], 1, 1)));
}
'''),
dict(id='coverage_any_account',prop='C03',needs='a request naming several accounts of which only some are configured',breaks='the request is called covered although one account is not tracked',
 edits=[(CS,"""            .all(|pk| self.accounts.contains(pk));
""","""            .any(|pk| self.accounts.contains(pk))
            || account_filter.accounts.is_empty();
""")],
 demo=r'''
#[test] fn demo() {
    let mut f = SimpleFilterStore::default();
    f.add_account_filters(&vec![AccountFilter { accounts: vec![key(1)], program_id: None, filters: None }]);
    assert!(f.contains_filter(&AccountFilter { accounts: vec![key(1)], program_id: None, filters: None }));
    assert!(!f.contains_filter(&AccountFilter { accounts: vec![key(1), key(2)], program_id: None, filters: None }));
}
'''),
dict(id='zstd_emptiness',prop='C04',needs='an empty account stored with Zstandard',breaks='a Zstandard compressed empty account is reported as not empty',
 edits=[(CD,"""            Data::Zstd { len, .. } => *len == 0,
        }""","""            Data::Zstd { binary, .. } => binary.is_empty(),
        }""")],
 demo=r'''
#[test] fn demo() {
    for m in [CompressionMethod::None, CompressionMethod::Lz4(1), CompressionMethod::Zstd(3)] { assert!(Data::new(&[], m.clone()).is_empty()); assert!(!Data::new(&[1], m).is_empty()); }
}
'''),
dict(id='finalized_lowers_confirmed',prop='C05',needs='a finalized update that is newer than the finalized state but older than the confirmed state',breaks='the confirmed state goes back to the older one',
 edits=[(AB,"""                if update_confirmed {
                    self.confirmed_account = Some(data.clone());
                }
                if update_finalized {
                    self.finalized_account = Some(data);""","""                if update_finalized {
                    self.confirmed_account = Some(data.clone());
                    self.finalized_account = Some(data);""")],
 demo=r'''
#[test] fn demo() {
    let st = store(&[0]);
    st.update_account(acc(1, 0, 5, &[1], 10, 1), Finalized);
    st.update_account(acc(1, 0, 5, &[2], 14, 1), Confirmed);
    st.update_account(acc(1, 0, 5, &[3], 12, 1), Finalized);
    assert_eq!(first(&st, 1, Confirmed), Some(2));
    assert_eq!(first(&st, 1, Finalized), Some(3));
}
'''),
dict(id='walk_stops_at_empty_slot',prop='C06',needs='a chain of slots in which one slot between changes no account',breaks='the promotion of a slot stops at an ancestor without updates, so older ancestors are not promoted',
 edits=[(AI,"""                            if let Some(parent_slot) = status.parent {
""","""                            if status.accounts_updated.is_empty() && parent.is_none() {
                                // nothing changed in this slot
                                break;
                            }
                            if let Some(parent_slot) = status.parent {
""")],
 demo=r'''
#[test] fn demo() {
    let st = store(&[0]);
    st.process_slot_data(slot(4, 3), Processed); st.process_slot_data(slot(5, 4), Processed); st.process_slot_data(slot(6, 5), Processed);
    st.update_account(acc(1, 0, 5, &[1], 4, 1), Processed);
    st.update_account(acc(2, 0, 5, &[2], 6, 2), Processed);
    st.process_slot_data(slot(6, 5), Confirmed);
    assert_eq!(first(&st, 1, Confirmed), Some(1));
}
'''),
dict(id='owner_recheck_with_conditions',prop='C07',needs='an account moved to another tracked program by an update not yet final, and a query with conditions for the old program',breaks='the query lists an account of another program',
 edits=[(AI,"""                    if account_data.account.lamports > 0
                        && account_data.account.owner == program_pubkey
                    {""","""                    if account_data.account.lamports > 0 {""")],
 demo=r'''
#[test] fn demo() {
    let st = store(&[0, 1]);
    st.update_account(acc(1, 0, 5, &[1], 4, 1), Finalized);
    st.update_account(acc(1, 1, 5, &[2], 5, 2), Processed);
    let q = |p, c| st.get_program_accounts(prog(p), Some(vec![AccountFilterType::Datasize(1)]), c).unwrap().len();
    assert_eq!(q(0, Processed), 0); assert_eq!(q(1, Processed), 1); assert_eq!(q(0, Finalized), 1); assert_eq!(q(1, Finalized), 0);
}
'''),
dict(id='tracked_account_refused',prop='C09',needs='an update of a stored account that does not match the filters any more',breaks='the update is dropped and the store serves the old state for ever',
 edits=[(AI,"""            && !self.satisfies_filters(&account_data)
            && !self.account_store_contains_key(&account_data.pubkey)
        {""","""            && !self.satisfies_filters(&account_data)
            && (account_data.account.data.is_empty()
                || !self.account_store_contains_key(&account_data.pubkey))
        {""")],
 demo=r'''
#[test] fn demo() {
    let st = store(&[0]);
    st.update_account(acc(1, 0, 5, &[1], 4, 0), Processed);
    assert!(st.update_account(acc(1, 7, 5, &[], 5, 0), Processed));
    assert_eq!(st.get_account(key(1), Processed).unwrap().unwrap().updated_slot, 5);
}
'''),
dict(id='deletion_of_moved_only',prop='C08',needs='a deletion that becomes final through a slot notification',breaks='a deleted account stays in the store for ever when its owner did not change',
 edits=[(AI,"""                    || account_data.account.lamports == 0)
                    && self""","""                    || (account_data.account.lamports == 0
                        && account_data.account.owner == Pubkey::default()))
                    && self""")],
 demo=r'''
#[test] fn demo() {
    let st = store(&[0]);
    st.update_account(acc(1, 0, 5, &[1], 4, 1), Finalized);
    st.process_slot_data(slot(5, 4), Processed);
    st.update_account(acc(1, 0, 0, &[2], 5, 2), Processed);
    st.process_slot_data(slot(5, 4), Confirmed); st.process_slot_data(slot(5, 4), Finalized);
    assert!(!st.account_store_contains_key(&key(1)));
}
'''),
dict(id='snapshot_of_confirmed',prop='C10',needs='a state that is confirmed but not finalized when the snapshot is made',breaks='the snapshot contains states that are not final, and loading it makes them final',
 edits=[(AI,"let accounts = self.get_program_accounts(program_id, None, Commitment::Finalized)?;","let accounts = self.get_program_accounts(program_id, None, Commitment::Confirmed)?;")],
 demo=r'''
#[test] fn demo() {
    let st = store(&[0]);
    st.update_account(acc(1, 0, 5, &[1], 4, 1), Finalized);
    st.update_account(acc(1, 0, 5, &[2], 5, 2), Confirmed);
    let o = store(&[0]);
    o.load_from_snapshot(prog(0), st.create_snapshot(prog(0)).unwrap()).unwrap();
    assert_eq!(first(&o, 1, Finalized), Some(1));
}
'''),
dict(id='default_store_not_told_processed',prop='C11',needs='an account in the default store updated in a slot whose child is confirmed',breaks='the default storage does not hear of processed slots, so it does not know their parents and promotes nothing there',
 edits=[(SP,"""        let mut t = self.default.process_slot_data(slot_info, commitment);
        return_vec.append(&mut t);""","""        if commitment != Commitment::Processed || return_vec.is_empty() != (slot_info.root == 0) {
            let mut t = self.default.process_slot_data(slot_info, commitment);
            return_vec.append(&mut t);
        }""")],
 demo=r'''
#[test] fn demo() {
    let mut m: HashMap<Pubkey, Arc<dyn AccountStorageInterface>> = HashMap::new(); m.insert(prog(0), Arc::new(store(&[0])));
    let d = StorageByProgramId::new(m, Arc::new(store(&[1])));
    d.update_account(acc(1, 1, 5, &[1], 4, 1), Processed);
    d.process_slot_data(slot(4, 3), Processed); d.process_slot_data(slot(5, 4), Processed);
    d.update_account(acc(2, 1, 5, &[1], 5, 1), Processed);
    d.process_slot_data(slot(6, 5), Processed);
    d.update_account(acc(3, 1, 5, &[1], 6, 1), Processed);
    d.process_slot_data(slot(6, 5), Finalized);
    assert_eq!(first(&d, 1, Finalized), Some(1));
    assert_eq!(first(&d, 2, Finalized), Some(1));
}
'''),
dict(id='query_skips_locked',prop='C12',needs='a program query running while an update holds the lock of one of the accounts',breaks='the query silently omits the account being updated',
 edits=[(AI,"""                    retry_list.push(*program_account_index);
                    continue;""","""                    if retry_list.is_empty() {
                        retry_list.reserve(128);
                    }
                    continue;"""),(AI,"let mut retry_list = Vec::with_capacity(128);","let mut retry_list: Vec<AccountIndex> = Vec::with_capacity(128);")],
 demo=r'''
#[test] fn demo() {
    let st = Arc::new(store(&[0])); let s2 = st.clone();
    st.update_account(acc(1, 0, 5, &[1], 4, 1), Processed);
    let stop = Arc::new(std::sync::atomic::AtomicBool::new(false)); let p2 = stop.clone();
    let ws: Vec<_> = (0..3).map(|_| { let (s, p) = (s2.clone(), p2.clone()); std::thread::spawn(move || { let mut w = 2; while !p.load(std::sync::atomic::Ordering::Relaxed) { s.update_account(acc(1, 0, 5, &[1], 4, w), Processed); w += 1 } }) }).collect();
    let t = std::time::Instant::now(); let mut ok = true;
    while ok && t.elapsed().as_secs() < 25 { ok = st.get_program_accounts(prog(0), None, Processed).unwrap().len() == 1 }
    stop.store(true, std::sync::atomic::Ordering::Relaxed); for w in ws { w.join().unwrap() }
    assert!(ok);
}
'''),
dict(id='json_drops_program',prop='C24',needs='a filter with both accounts and a program',breaks='the program of the filter is lost when it is written',
 edits=[(CF,"if let Some(program_id) = self.program_id {","if let Some(program_id) = self.program_id.filter(|_| self.accounts.is_empty()) {")],
 demo=r'''
#[test] fn demo() {
    let f = AccountFilter { accounts: vec![key(1)], program_id: Some(prog(0)), filters: None };
    let g: AccountFilter = serde_json::from_str(&serde_json::to_string(&f).unwrap()).unwrap();
    assert_eq!(f, g);
}
'''),
]
