AD='common/src/account_data.rs'; SP='account_storage/src/storage_by_program_id.rs'
exec(open('tools/bugspecs/b7.py').read().split('BUGS=[')[0])
BUGS=[
dict(id='pattern_prefix_covers',prop='C03',needs='a request whose pattern is shorter than the stored one at the same offset',breaks='a request is called covered although only a part of its answers is tracked',
 edits=[(SF,"""                                filter_list.iter().any(|stored_filters| {
                                    stored_filters.is_subset(&filter_to_match)
                                })""","""                                filter_list.iter().any(|stored_filters| {
                                    stored_filters.iter().all(|stored| {
                                        filter_to_match.iter().any(|asked| match (stored, asked) {
                                            // patterns at the same place: one is a part of the other
                                            (
                                                AccountFilterType::Memcmp(stored),
                                                AccountFilterType::Memcmp(asked),
                                            ) => {
                                                stored.offset == asked.offset
                                                    && stored.bytes().starts_with(&asked.bytes())
                                            }
                                            _ => stored == asked,
                                        })
                                    })
                                })""")],
 demo=r'''
fn f(b: &[u8]) -> AccountFilter { AccountFilter { accounts: vec![], program_id: Some(prog(0)), filters: Some(vec![AccountFilterType::Memcmp(MemcmpFilter { offset: 3, data: MemcmpFilterData::Bytes(b.to_vec()) })]) } }
#[test] fn demo() {
    let mut s = SimpleFilterStore::default(); s.add_account_filters(&vec![f(&[1, 2])]);
    assert!(s.contains_filter(&f(&[1, 2]))); assert!(!s.contains_filter(&f(&[1]))); assert!(!s.contains_filter(&f(&[2, 1])));
}
'''),
dict(id='account_size_decimal',prop='C04',needs='an account of the largest size (10 MiB) stored with Zstandard',breaks='its data cannot be read any more',
 edits=[(AD,"const MAX_ACCOUNT_SIZE: usize = 64 * 1024 * 1024;","const MAX_ACCOUNT_SIZE: usize = 10_000_000; // 10 MB")],
 demo=r'''
use lite_account_manager_common::account_data::CompressionMethod;
#[test] fn demo() {
    let d = vec![3u8; 10 * 1024 * 1024];
    for m in [CompressionMethod::None, CompressionMethod::Lz4(1), CompressionMethod::Zstd(1)] { assert!(Data::new(&d, m).data() == d); }
}
'''),
dict(id='first_deletion_ignored',prop='C09',needs='the first update of a listed account is its deletion, an older live state comes late',breaks='the deletion is not kept, the account is readable',
 edits=[(AI,"""            dashmap::mapref::entry::Entry::Vacant(vac) => {
                if self.satisfies_filters(&account_data) {""","""            dashmap::mapref::entry::Entry::Vacant(vac) => {
                if !Self::is_deleted(&account_data) && self.satisfies_filters(&account_data) {""")],
 demo=r'''
#[test] fn demo() {
    let st = store(&[0]);
    assert!(st.update_account(acc(1, 0, 0, &[2], 6, 2), Processed)); st.update_account(acc(1, 0, 5, &[1], 5, 1), Processed);
    assert_eq!(first(&st, 1, Processed), None);
}
'''),
dict(id='failing_query_asks_default',prop='C11',needs='a query which the store of the program refuses',breaks='the answer of another store is given instead of the error',
 edits=[(SP,"""            Some(occ) => occ.get_program_accounts(program_pubkey, account_filter, commitment),
""","""            Some(occ) => occ
                .get_program_accounts(program_pubkey, account_filter.clone(), commitment)
                .or_else(|_| {
                    self.default
                        .get_program_accounts(program_pubkey, account_filter, commitment)
                }),
""")],
 demo=r'''
#[test] fn demo() {
    let by: std::collections::HashMap<Pubkey, Arc<dyn AccountStorageInterface>> = [(prog(0), Arc::new(store(&[1])) as Arc<dyn AccountStorageInterface>)].into_iter().collect();
    let st = StorageByProgramId::new(by, Arc::new(store(&[0])));
    assert!(st.get_program_accounts(prog(0), None, Finalized).is_err());
}
'''),
dict(id='deleted_falls_back_to_final',prop='C16',needs='a token account closed but not finally',breaks='the final state is still given at processed and confirmed',
 edits=[(TS,"""                    Some((processed_account, slot)) => Ok(token_program_account_to_solana_account(
                        &processed_account.processed_account,
                        *slot,
                        0,
                        &self.mint_pubkeys,
                    )),
                    None => Ok(self.get_account_finalized(account_pk)),""","""                    Some((processed_account, slot)) => Ok(token_program_account_to_solana_account(
                        &processed_account.processed_account,
                        *slot,
                        0,
                        &self.mint_pubkeys,
                    )
                    .or_else(|| self.get_account_finalized(account_pk))),
                    None => Ok(self.get_account_finalized(account_pk)),""")],
 demo=TOK+r'''
#[test] fn demo() {
    let st = ts(); st.initilize_or_update_account(tacc(k4(9), spl_token::id(), mint_data(1), 1, 1));
    st.initilize_or_update_account(tacc(k4(1), spl_token::id(), packed(base(k4(9), k4(8), 5)), 1, 1));
    let mut a = tacc(k4(1), Pubkey::default(), vec![], 3, 2); { let x = Arc::make_mut(&mut a.account); x.lamports = 0; }
    st.update_account(a, Processed); assert_eq!(amount(&st, k4(1), Processed), None); assert_eq!(amount(&st, k4(1), Finalized), Some(5));
}
'''),
dict(id='notified_slot_of_notification',prop='C17',needs='a slot is finalized together with an ancestor that has an update',breaks='the update is reported with the slot of the notification',
 edits=[(TS,"""                    .iter()
                    .filter_map(|(acc, slot)| {
                        token_program_account_to_solana_account(
                            &acc.processed_account,
                            *slot,""","""                    .iter()
                    .filter_map(|(acc, _)| {
                        token_program_account_to_solana_account(
                            &acc.processed_account,
                            slot_info.slot,""")],
 demo=TOK+r'''
#[test] fn demo() {
    let st = ts(); st.initilize_or_update_account(tacc(k4(9), spl_token::id(), mint_data(1), 1, 1));
    st.update_account(tacc(k4(1), spl_token::id(), packed(base(k4(9), k4(8), 5)), 4, 2), Processed);
    for s in 4..6 { st.process_slot_data(SlotInfo { slot: s, parent: s - 1, root: 0 }, Processed); }
    let r = st.process_slot_data(SlotInfo { slot: 5, parent: 4, root: 0 }, Finalized);
    assert_eq!(r.len(), 1); assert_eq!(r[0].updated_slot, 4);
}
'''),
dict(id='known_mint_skipped',prop='C19',needs='the receiving store already has a mint of the snapshot',breaks='the token accounts of the mint are not restored',
 edits=[(TS,"""            mint_mapping.insert(index, mint_index);
""","""            if self.mints_by_index.contains_key(&mint_index) {
                // do not replace a more recent state of the mint
                continue;
            }
            mint_mapping.entry(index).or_insert(mint_index);
""")],
 demo=TOK+r'''
#[test] fn demo() {
    let (st, dst) = (ts(), ts());
    for s in [&st, &dst] { s.initilize_or_update_account(tacc(k4(9), spl_token::id(), mint_data(1), 1, 1)); }
    st.initilize_or_update_account(tacc(k4(1), spl_token::id(), packed(base(k4(9), k4(8), 5)), 1, 1));
    dst.load_from_snapshot(spl_token::id(), st.create_snapshot(spl_token::id()).unwrap()).unwrap();
    assert_eq!(amount(&dst, k4(1), Finalized), Some(5));
}
'''),
dict(id='type_prefix_enough',prop='C20',needs='a condition on the type byte that is longer than the byte',breaks='conditions which do not describe token accounts are answered by owner or mint',
 edits=[(UT,"""        || memcmp_filter.as_deref() == Some(&[ACCOUNTTYPE_ACCOUNT])
""","""        || memcmp_filter.is_some_and(|bytes| bytes.first() == Some(&ACCOUNTTYPE_ACCOUNT))
""")],
 demo=TOK+r'''
#[test] fn demo() {
    let m = |offset, b: Vec<u8>| AccountFilterType::Memcmp(MemcmpFilter { offset, data: MemcmpFilterData::Bytes(b) });
    let p = spl_token_2022::id();
    assert_eq!(get_spl_token_owner_mint_filter(&p, &[m(32, vec![4; 32]), m(165, vec![2])]).0, Some(Pubkey::new_from_array([4; 32])));
    assert_eq!(get_spl_token_owner_mint_filter(&p, &[m(32, vec![4; 32]), m(165, vec![2, 7])]).0, None);
}
'''),
dict(id='type_byte_only',prop='C21',needs='a token-2022 account that ends with its type byte',breaks='it is refused',
 edits=[(UT,"""        } else if account_data.account.data.len() > 165 {""","""        } else if account_data.account.data.len() > 166 {""")],
 demo=TOK+r'''
#[test] fn demo() {
    let st = ts(); st.initilize_or_update_account(tacc(k4(9), spl_token_2022::id(), mint_data(1), 1, 1));
    let mut d = packed(base(k4(9), k4(8), 5)); d.push(2);
    st.initilize_or_update_account(tacc(k4(1), spl_token_2022::id(), d, 1, 1));
    assert_eq!(amount(&st, k4(1), Finalized), Some(5));
}
'''),
]
