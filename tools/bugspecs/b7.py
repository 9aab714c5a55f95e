AI='account_storage/src/inmemory_account_store.rs'; AC='account_storage/src/account_data_by_commitment.rs'; SF='common/src/simple_filter_store.rs'; FI='common/src/account_filter.rs'
TY='token_account_storage/src/account_types.rs'; UT='token_account_storage/src/token_program_utils.rs'; TA='token_account_storage/src/inmemory_token_account_storage.rs'; TS='token_account_storage/src/inmemory_token_storage.rs'
OD='accounts_on_demand/src/accounts_on_demand.rs'
TOK=r'''
use lite_token_account_storage::{account_types::*, inmemory_token_account_storage::InmemoryTokenAccountStorage, inmemory_token_storage::TokenProgramAccountsStorage, token_account_storage_interface::TokenAccountStorageInterface, token_program_utils::*};
use solana_program::{program_option::COption, program_pack::Pack};
fn k4(i: u8) -> Pubkey { let mut b = [9u8; 32]; b[20] = i; Pubkey::new_from_array(b) }
fn base(mint: Pubkey, owner: Pubkey, amount: u64) -> spl_token::state::Account { spl_token::state::Account { mint, owner, amount, delegate: COption::None, state: spl_token::state::AccountState::Initialized, is_native: COption::None, delegated_amount: 0, close_authority: COption::None } }
fn packed(a: spl_token::state::Account) -> Vec<u8> { let mut v = vec![0; 165]; a.pack_into_slice(&mut v); v }
fn mint_data(supply: u64) -> Vec<u8> { let mut v = vec![0; 82]; spl_token::state::Mint { mint_authority: COption::None, supply, decimals: 2, is_initialized: true, freeze_authority: COption::None }.pack_into_slice(&mut v); v }
fn tacc(k: Pubkey, owner: Pubkey, data: Vec<u8>, slot: u64, wv: u64) -> AccountData { AccountData { pubkey: k, account: Arc::new(Account { lamports: 1_000_000_000, data: Data::Uncompressed(data), owner, executable: false, rent_epoch: u64::MAX }), updated_slot: slot, write_version: wv } }
fn ts() -> TokenProgramAccountsStorage { TokenProgramAccountsStorage::new(Arc::new(InmemoryTokenAccountStorage::default())) }
fn amount(st: &TokenProgramAccountsStorage, k: Pubkey, c: Commitment) -> Option<u64> { st.get_account(k, c).unwrap().map(|a| spl_token::state::Account::unpack(&a.account.data.data()[..165]).unwrap().amount) }
fn by(offset: u64, k: Pubkey) -> Option<Vec<AccountFilterType>> { Some(vec![AccountFilterType::Datasize(165), AccountFilterType::Memcmp(MemcmpFilter { offset, data: MemcmpFilterData::Bytes(k.to_bytes().to_vec()) })]) }
'''
BUGS=[
dict(id='addresses_with_program_dropped',prop='C02',needs='one filter with both addresses and a program',breaks='the addresses of the filter are not tracked',
 edits=[(SF,"""        for account in &account_filter.accounts {
            self.accounts.insert(*account);
        }
""","""        if account_filter.program_id.is_none() {
            self.accounts.extend(account_filter.accounts.iter());
        }
""")],
 demo=r'''
#[test] fn demo() {
    let mut f = SimpleFilterStore::default();
    f.add_account_filters(&vec![AccountFilter { accounts: vec![key(1)], program_id: Some(prog(0)), filters: None }]);
    assert!(AccountFiltersStoreInterface::satisfies(&f, &acc(1, 1, 5, &[1], 1, 1))); assert!(AccountFiltersStoreInterface::satisfies(&f, &acc(2, 0, 5, &[1], 1, 1)));
}
'''),
dict(id='finalized_same_slot_any_version',prop='C05',needs='two final updates of one slot, the older version last',breaks='the older version replaces the finalized state',
 edits=[(AC,"""        let update_finalized = self
            .finalized_account
            .as_ref()
            .map(|x| {
                x.updated_slot < data.updated_slot
                    || (x.updated_slot == data.updated_slot && x.write_version < data.write_version)
            })
""","""        let update_finalized = self
            .finalized_account
            .as_ref()
            .map(|x| x.updated_slot <= data.updated_slot)
""")],
 demo=r'''
#[test] fn demo() {
    let st = store(&[0]);
    st.update_account(acc(1, 0, 5, &[2], 4, 2), Finalized); st.update_account(acc(1, 0, 5, &[1], 4, 1), Finalized);
    for c in [Processed, Confirmed, Finalized] { assert_eq!(first(&st, 1, c), Some(2)); }
}
'''),
dict(id='compressed_answer_loses_version',prop='C07',needs='a query with conditions that match an account stored compressed',breaks='the answer carries another write version than a read of the account',
 edits=[(AC,"""                        updated_slot: account_data.updated_slot,
                        write_version: account_data.write_version,
                    })""","""                        updated_slot: account_data.updated_slot,
                        write_version: 0,
                    })""")],
 demo=r'''
#[test] fn demo() {
    let st = store(&[0]); let mut a = acc(1, 0, 5, &[1, 2, 3], 4, 7);
    a.account = Arc::new(Account { data: Data::new(&[1, 2, 3], CompressionMethod::Lz4(1)), lamports: 5, owner: prog(0), executable: false, rent_epoch: 0 });
    st.update_account(a, Processed);
    let q = st.get_program_accounts(prog(0), Some(vec![AccountFilterType::Datasize(3)]), Processed).unwrap();
    assert_eq!(q[0].write_version, st.get_account(key(1), Processed).unwrap().unwrap().write_version);
}
'''),
dict(id='native_zero_reserve',prop='C14',needs='a native token account whose rent exempt reserve is zero',breaks='the account given back is no longer native',
 edits=[(UT,"""                    TokenProgramAccountState::Frozen => spl_token::state::AccountState::Frozen,
                },
                is_native: token_account.is_native.into(),
                delegated_amount,""","""                    TokenProgramAccountState::Frozen => spl_token::state::AccountState::Frozen,
                },
                is_native: token_account
                    .is_native
                    .filter(|reserve| *reserve > 0)
                    .into(),
                delegated_amount,""")],
 demo=TOK+r'''
#[test] fn demo() {
    let st = ts(); let mut a = base(key(9), key(8), 5); a.is_native = COption::Some(0); let d = packed(a); let k = key(3);
    st.initilize_or_update_account(tacc(k, spl_token::ID, d.clone(), 1, 1)); assert_eq!(st.get_account(k, Finalized).unwrap().unwrap().account.data.data(), d);
}
'''),
dict(id='deleted_record_reused',prop='C15',needs='an account saved after another whose address starts with the same four bytes was closed',breaks='it takes over the record the owner and mint lists know as the other account',
 edits=[(TA,"""                        if TokenAccount::get_pubkey_from_binary(binary) == token_account.pubkey {
                            *write_lk""","""                        // the place of a closed account can be used again
                        if binary[1] == 1
                            || TokenAccount::get_pubkey_from_binary(binary) == token_account.pubkey
                        {
                            *write_lk""")],
 demo=TOK+r'''
#[test] fn demo() {
    let st = InmemoryTokenAccountStorage::default();
    let t = |k, amount, is_deleted| TokenAccount { program: Program::TokenProgram, is_deleted, pubkey: k, owner: key(2), mint: 3, amount, state: TokenProgramAccountState::Initialized, delegate: None, is_native: None, close_authority: None, additional_data: None };
    let (i, _) = st.save_or_update(t(k4(1), 1, true)); let (j, new) = st.save_or_update(t(k4(2), 2, false));
    assert!(new && i != j);
}
'''),
dict(id='walk_ends_at_first_found',prop='C18',needs='a query whose accounts were last changed in different slots since the confirmed one',breaks='accounts changed in older slots are answered in their finalized state',
 edits=[(TS,"                    if return_list.iter().all(|x| x.is_some()) {\n                        break;\n                    }\n                    process_slot","                    if return_list.iter().any(|x| x.is_some()) {\n                        break;\n                    }\n                    process_slot")],
 demo=TOK+r'''
#[test] fn demo() {
    let st = ts(); let m = key(9); let o = key(8);
    st.initilize_or_update_account(tacc(m, spl_token::ID, mint_data(1), 1, 1));
    for (s, k) in [(5, key(1)), (6, key(2))] { st.update_account(tacc(k, spl_token::ID, packed(base(m, o, s * 10)), s, 1), Processed); }
    for s in [5, 6] { st.process_slot_data(slot(s, s - 1), Processed); st.process_slot_data(slot(s, s - 1), Confirmed); }
    assert_eq!(st.get_program_accounts(spl_token::ID, by(32, o), Confirmed).unwrap().len(), 2);
}
'''),
dict(id='loaded_answer_is_final',prop='C22',needs='an update of the account that arrives while it is being loaded',breaks='the request that loaded it is answered with the older, finalized state',
 edits=[(OD,"""?;
                            self.accounts_storage.get_account(account_pk, commitment)
                        }
                    }
                }
""","""?;
                            // what was loaded is final
                            self.accounts_storage
                                .get_account(account_pk, Commitment::Finalized)
                        }
                    }
                }
""")],
 demo=r'''
use lite_account_manager_common::accounts_source_interface::AccountsSourceInterface;
use lite_accounts_on_demand::accounts_on_demand::AccountsOnDemand;
use std::collections::HashSet;
struct Src(Arc<InmemoryAccountStore>);
impl AccountsSourceInterface for Src {
    fn subscribe_accounts(&self, _a: HashSet<Pubkey>) -> anyhow::Result<()> { Ok(()) }
    fn subscribe_program_accounts(&self, _p: Pubkey, _f: Option<Vec<AccountFilterType>>) -> anyhow::Result<()> { Ok(()) }
    fn save_snapshot(&self, st: Arc<dyn AccountStorageInterface>, _f: AccountFilters) -> anyhow::Result<()> { st.initilize_or_update_account(acc(1, 0, 5, &[1], 4, 1)); st.update_account(acc(1, 0, 5, &[2], 5, 1), Processed); Ok(()) }
}
#[test] fn demo() {
    let f = Arc::new(MutableFilterStore::default()); let st = Arc::new(InmemoryAccountStore::new(f.clone()));
    let d = AccountsOnDemand::new(Arc::new(Src(st.clone())), f, st);
    assert_eq!(first(&d, 1, Processed), Some(2));
}
'''),
dict(id='json_drops_empty_conditions',prop='C24',needs='a filter with an empty list of conditions',breaks='the list is lost when the filter is written',
 edits=[(FI,"        if let Some(filters) = &self.filters {\n            seq","        if let Some(filters) = self.filters.as_ref().filter(|filters| !filters.is_empty()) {\n            seq")],
 demo=r'''
#[test] fn demo() {
    let f = AccountFilter { accounts: vec![key(1)], program_id: Some(prog(0)), filters: Some(vec![]) };
    let g: AccountFilter = serde_json::from_str(&serde_json::to_string(&f).unwrap()).unwrap(); assert!(f == g);
}
'''),
]
