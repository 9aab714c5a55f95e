AV='simulate_from_snapshot/src/snapshot_utils/append_vec.rs'; AR='simulate_from_snapshot/src/snapshot_utils/archived.rs'; SM='simulate_from_snapshot/src/snapshot_utils/mod.rs'; PA='simulate_from_snapshot/src/snapshot_utils/parallel.rs'
RP='simulate_from_snapshot/src/rpc_server.rs'; MA='simulate_from_snapshot/src/main.rs'; TS='token_account_storage/src/inmemory_token_storage.rs'
BUGS=[
dict(id='stored_length_32_bits',prop='C23',sim=True,needs='a storage file whose account claims a data length of 2^32 or more',breaks='the length is cut to 32 bits: an account is made up from a damaged file',
 edits=[(AV,"self.get_slice(next, meta.data_len as usize)?;","self.get_slice(next, meta.data_len as u32 as usize)?;")],
 demo=r'''
#[test] fn demo() {
    let mut b = vec![]; stored(&mut b, 1, key(9), 5, &[1; 8]); b[12] = 1;
    let n = b.len(); let v = AppendVec::new_from_reader(&mut Cursor::new(b), n, 1).unwrap();
    assert_eq!(append_vec_iter(&v).count(), 0);
}
'''),
dict(id='storage_file_of_any_slot',prop='C23',sim=True,needs='a file of a slot the manifest does not list, with the id of a file of another slot',breaks='the file is replayed with the length of the other one instead of being refused',
 edits=[(AR,"""        let known_vecs = self
            .accounts_db_fields
            .0
            .get(&slot)
            .map(|v| &v[..])
            .unwrap_or(&[]);
        let known_vec = known_vecs.iter().find(|entry| entry.id == (id as usize));
""","""        // ids of storage files are unique
        let known_vec = self
            .accounts_db_fields
            .0
            .values()
            .flatten()
            .find(|entry| entry.id == (id as usize));
""")],
 demo=r'''
#[test] fn demo() {
    let mut b = vec![]; stored(&mut b, 1, key(9), 5, &[1; 8]); let n = b.len();
    let mut a = tar::entry(b"snapshots/9/9", &manifest(&[(5, 0, n)])); a.extend(tar::entry(b"accounts/6.0", &b)); a.extend([0; 1024]);
    let mut x = ArchiveSnapshotExtractor::from_reader(Cursor::new(a)).unwrap();
    assert!(matches!(x.iter().next(), Some(Err(SnapshotError::UnexpectedAppendVec))));
}
'''),
dict(id='storage_id_32_bits',prop='C23',sim=True,needs='a storage file whose id has more than 32 bits',breaks='the file is taken for something else and left out without an error',
 edits=[(SM,"""    let id = u64::from_str(parts.next().unwrap_or(""));
""","""    let id = u32::from_str(parts.next().unwrap_or("")).map(u64::from);
""")],
 demo=r'''
#[test] fn demo() {
    let mut b = vec![]; stored(&mut b, 1, key(9), 5, &[1; 8]);
    let mut x = ArchiveSnapshotExtractor::from_reader(Cursor::new(archive(&[(5, 0, b.clone()), (6, 1 << 33, b)]))).unwrap();
    assert_eq!(x.iter().map(|v| append_vec_iter(&v.unwrap()).count()).sum::<usize>(), 2);
}
'''),
dict(id='consumer_failure_lost',prop='C23',sim=True,needs='more files than consumers, and a consumer failing before the last round',breaks='a failure is logged only, the replay ends as if it was complete',
 edits=[(PA,"""            tasks.join_next().await.expect("checked")??
""","""            match tasks.join_next().await.expect("checked")? {
                Ok(consumer) => consumer,
                Err(e) => {
                    log::error!("append vec was not consumed: {e}");
                    create_consumer()
                }
            }
""")],
 demo=r'''
struct Bad(u64);
#[async_trait::async_trait] impl AppendVecConsumer for Bad { async fn on_append_vec(&mut self, v: AppendVec) -> anyhow::Result<()> { if v.slot() == self.0 { anyhow::bail!("no") } Ok(()) } }
#[test] fn demo() {
    for bad in 1..4 {
        let files: Vec<SnapshotResult<AppendVec>> = (1..=3).map(|i| Ok(AppendVec::new_from_reader(&mut Cursor::new(vec![]), 0, i).unwrap())).collect();
        assert!(now(par_iter_append_vecs(Box::new(files.into_iter()), || Bad(bad), 2)).is_err());
    }
}
'''),
dict(id='empty_slice_is_everything',prop='C26',sim=True,needs='a data slice of length zero',breaks='the whole data is returned instead of none of it',
 edits=[(RP,"    let data_slice = config.as_ref().map(|c| c.data_slice).unwrap_or_default();","""    let data_slice = config
        .as_ref()
        .map(|c| c.data_slice)
        .unwrap_or_default()
        .filter(|slice| slice.length > 0);""")],
 demo=r'''
#[test] fn demo() {
    let s = RpcServerImpl::new(Arc::new(Fake { answer: vec![acc(1, 5, &[1, 2, 3])], ..Default::default() }));
    let r = now(s.get_account_info(key(1).to_string(), Some(RpcAccountInfoConfig { data_slice: Some(UiDataSliceConfig { offset: 0, length: 0 }), ..Default::default() }))).unwrap();
    assert!(matches!(r.value.unwrap().data, UiAccountData::Binary(t, _) if t.is_empty()));
}
'''),
dict(id='minimum_slot_without_context',prop='C26',sim=True,needs='a program query with a minimum slot and no context, and an account last written before that slot',breaks='the account is left out of the answer',
 edits=[(RP,"""                if c.with_context.unwrap_or_default() {
                    c.account_config.min_context_slot
                } else {
                    None
                }
""","""                c.account_config.min_context_slot
""")],
 demo=r'''
#[test] fn demo() {
    let s = RpcServerImpl::new(Arc::new(Fake { answer: vec![acc(1, 5, &[1]), acc(2, 50, &[1])], ..Default::default() }));
    let r = now(s.get_program_accounts(key(99).to_string(), Some(RpcProgramAccountsConfig { filters: None, account_config: RpcAccountInfoConfig { min_context_slot: Some(20), ..Default::default() }, with_context: None }))).unwrap();
    assert!(matches!(r, OptionalContext::NoContext(l) if l.len() == 2));
}
'''),
dict(id='parent_is_slot_before',prop='C27',sim=True,needs='a skipped slot, and a notice for a later slot only',breaks='the states of the slot before the gap never become confirmed',
 edits=[(MA,"                                    parent: slot_msg.parent,","                                    parent: slot_msg.slot.saturating_sub(1),")],
 demo=r'''
#[test] fn demo() {
    let mut b = vec![]; stored(&mut b, 1, token(), 5, &mint_data()); stored(&mut b, 2, token(), 5, &token_data(key(1), key(50), 3));
    let s = simulate(archive(&[(5, 0, b)]), vec![acct_msg(2, 20, 1, token_data(key(1), key(50), 4)), slot_msg(22, 20, CommitmentConfig::confirmed())]);
    assert_eq!(amount(&s, 2, CommitmentConfig::processed()), Some(4)); assert_eq!(amount(&s, 2, CommitmentConfig::confirmed()), Some(4)); assert_eq!(amount(&s, 2, CommitmentConfig::finalized()), Some(3));
}
'''),
dict(id='stream_version_dropped',prop='C27',sim=True,needs='two versions of an account in one slot of the stream, the newer one not arriving first',breaks='the version that came first stays',
 edits=[(MA,"                            write_version: account.write_version,","                            write_version: 0,")],
 demo=r'''
#[test] fn demo() {
    let mut b = vec![]; stored(&mut b, 1, token(), 5, &mint_data());
    let s = simulate(archive(&[(5, 0, b)]), vec![acct_msg(2, 20, 1, token_data(key(1), key(50), 4)), acct_msg(2, 20, 2, token_data(key(1), key(50), 5))]);
    assert_eq!(amount(&s, 2, CommitmentConfig::processed()), Some(5));
}
'''),
dict(id='finalized_by_write_version',prop='C17',needs='an account written in two slots that are finalized together, the later one with a lower write version',breaks='the state of the earlier slot becomes the finalized one',
 edits=[(TS,"""                            std::collections::hash_map::Entry::Occupied(_) => {
                                // already present
                                continue;
                            }
""","""                            std::collections::hash_map::Entry::Occupied(mut present) => {
                                // keep the newest
                                if present.get().0.write_version < acc.write_version {
                                    present.insert((acc, current_slot));
                                }
                            }
""")],
 demo=r'''
use lite_token_account_storage::{inmemory_token_account_storage::InmemoryTokenAccountStorage, inmemory_token_storage::TokenProgramAccountsStorage};
use solana_sdk::program_pack::Pack;
#[test] fn demo() {
    let st = TokenProgramAccountsStorage::new(Arc::new(InmemoryTokenAccountStorage::default()));
    let t = |amount: u64, slot: u64, wv: u64| { let mut d = vec![0u8; 165]; spl_token::state::Account { mint: key(1), owner: key(5), amount, state: spl_token::state::AccountState::Initialized, ..Default::default() }.pack_into_slice(&mut d);
        AccountData { pubkey: key(2), account: Arc::new(Account { lamports: 2039280, data: Data::Uncompressed(d), owner: spl_token::id(), executable: false, rent_epoch: 0 }), updated_slot: slot, write_version: wv } };
    st.update_account(t(4, 10, 8), Processed); st.update_account(t(5, 11, 7), Processed);
    for (s, p, c) in [(10, 9, Confirmed), (11, 10, Confirmed), (11, 10, Finalized)] { st.process_slot_data(slot(s, p), c); }
    let a = st.get_account(key(2), Finalized).unwrap().unwrap(); assert_eq!(spl_token::state::Account::unpack(&a.account.data.data()).unwrap().amount, 5);
}
'''),
]
