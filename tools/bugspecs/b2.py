AT='token_account_storage/src/account_types.rs'; IT='token_account_storage/src/inmemory_token_account_storage.rs'; TS='token_account_storage/src/inmemory_token_storage.rs'; TU='token_account_storage/src/token_program_utils.rs'; OD='accounts_on_demand/src/accounts_on_demand.rs'; AI='account_storage/src/inmemory_account_store.rs'
TOK=r'''
use lite_token_account_storage::{account_types::*, inmemory_token_account_storage::InmemoryTokenAccountStorage, inmemory_token_storage::TokenProgramAccountsStorage, token_account_storage_interface::TokenAccountStorageInterface, token_program_utils::*};
use solana_program::{program_option::COption, program_pack::Pack};
fn k4(i: u8) -> Pubkey { let mut b = [9u8; 32]; b[20] = i; Pubkey::new_from_array(b) }
fn base(mint: Pubkey, owner: Pubkey, amount: u64) -> spl_token::state::Account { spl_token::state::Account { mint, owner, amount, delegate: COption::None, state: spl_token::state::AccountState::Initialized, is_native: COption::None, delegated_amount: 0, close_authority: COption::None } }
fn packed(a: spl_token::state::Account) -> Vec<u8> { let mut v = vec![0; 165]; a.pack_into_slice(&mut v); v }
fn mint_data(supply: u64) -> Vec<u8> { let mut v = vec![0; 82]; spl_token::state::Mint { mint_authority: COption::None, supply, decimals: 2, is_initialized: true, freeze_authority: COption::None }.pack_into_slice(&mut v); v }
fn tacc(k: Pubkey, owner: Pubkey, data: Vec<u8>, slot: u64, wv: u64) -> AccountData { AccountData { pubkey: k, account: Arc::new(Account { lamports: 1_000_000_000, data: Data::Uncompressed(data), owner, executable: false, rent_epoch: u64::MAX }), updated_slot: slot, write_version: wv } }
fn ts() -> TokenProgramAccountsStorage { TokenProgramAccountsStorage::new(Arc::new(InmemoryTokenAccountStorage::default())) }
fn amount(st: &TokenProgramAccountsStorage, k: Pubkey, c: Commitment) -> Option<u64> { st.get_account(k, c).unwrap().map(|a| spl_token::state::Account::unpack(&a.account.data.data()[..165]).unwrap().amount) }
fn by(offset: u64, k: Pubkey) -> Option<Vec<AccountFilterType>> { Some(vec![AccountFilterType::Datasize(165), AccountFilterType::Memcmp(MemcmpFilter { offset, data: MemcmpFilterData::Bytes(k.to_bytes().to_vec()) })]) }
'''
BUGS=[
dict(id='frozen_record_bit',prop='C13',needs='a frozen token account',breaks='the stored record of a frozen account is read back as initialized',
 edits=[(AT,"TokenProgramAccountState::Frozen => program_bits |= FROZEN_STATE_BITS << 2,","TokenProgramAccountState::Frozen => program_bits |= FROZEN_STATE_BITS << 1,")],
 demo=TOK+r'''
#[test] fn demo() {
    let mut t = TokenAccount { program: Program::TokenProgram, is_deleted: false, pubkey: key(1), owner: key(2), mint: 3, amount: 4, state: TokenProgramAccountState::Initialized, delegate: None, is_native: None, close_authority: None, additional_data: None };
    assert!(TokenAccount::from_bytes(&t.to_bytes()) == t);
    t.state = TokenProgramAccountState::Frozen; assert!(TokenAccount::from_bytes(&t.to_bytes()) == t);
}
'''),
dict(id='empty_delegation_dropped',prop='C14',needs='a Token-2022 account with a delegate whose delegated amount is zero',breaks='the delegate is missing in the account given back',
 edits=[(TU,"""            let t_acc = spl_token_2022::state::Account {
                mint,
                owner: token_account.owner,
                amount: token_account.amount,
                delegate: if token_account.delegate.is_some() {""","""            let t_acc = spl_token_2022::state::Account {
                mint,
                owner: token_account.owner,
                amount: token_account.amount,
                delegate: if delegated_amount > 0 {""")],
 demo=TOK+r'''
#[test] fn demo() {
    let st = ts(); let mut a = base(key(9), key(8), 5); a.delegate = COption::Some(key(7));
    for p in [spl_token::ID, spl_token_2022::ID] { let d = packed(a.clone()); let k = Pubkey::new_unique();
        st.initilize_or_update_account(tacc(k, p, d.clone(), 1, 1)); assert_eq!(st.get_account(k, Finalized).unwrap().unwrap().account.data.data(), d); }
}
'''),
dict(id='address_compared_by_eight_bytes',prop='C15',needs='two token accounts whose addresses share their first eight bytes',breaks='saving the second replaces the first',
 edits=[(IT,"                        if TokenAccount::get_pubkey_from_binary(binary) == token_account.pubkey {","                        if binary[2..10] == token_account.pubkey.to_bytes()[..8] {")],
 demo=TOK+r'''
#[test] fn demo() {
    let st = InmemoryTokenAccountStorage::default();
    let t = |k, amount| TokenAccount { program: Program::TokenProgram, is_deleted: false, pubkey: k, owner: key(2), mint: 3, amount, state: TokenProgramAccountState::Initialized, delegate: None, is_native: None, close_authority: None, additional_data: None };
    assert!(st.save_or_update(t(k4(1), 1)).1); assert!(st.save_or_update(t(k4(2), 2)).1);
    assert_eq!(st.get_by_pubkey(&k4(1)).unwrap().amount, 1); assert_eq!(st.get_by_pubkey(&k4(2)).unwrap().amount, 2);
}
'''),
dict(id='write_version_kept',prop='C16',needs='three updates of one account in one slot, the newest arriving second',breaks='the third, older update replaces the newest state',
 edits=[(TS,"                            acc.write_version = write_version;\n","")],
 demo=TOK+r'''
#[test] fn demo() {
    let st = ts(); let k = key(1);
    for (wv, a) in [(1, 10), (5, 50), (3, 30)] { st.update_account(tacc(k, spl_token::ID, packed(base(key(9), key(8), a)), 7, wv), Processed); }
    assert_eq!(amount(&st, k, Processed), Some(50));
    st.process_slot_data(slot(7, 6), Finalized); assert_eq!(amount(&st, k, Finalized), Some(50));
}
'''),
dict(id='unannounced_slot_loses_parent',prop='C17',needs='a slot that is finalized without having been announced or confirmed, with updates in a parent that was only confirmed',breaks='the updates of the parent are dropped instead of finalized and reported',
 edits=[(TS,"""                if self.finalized_slot.load(Ordering::Relaxed) < slot_info.slot {
                    self.processed_storage.update_slot_info(slot_info);
                    self.finalized_slot
""","""                if self.finalized_slot.load(Ordering::Relaxed) < slot_info.slot {
                    self.finalized_slot
""")],
 demo=TOK+r'''
#[test] fn demo() {
    let st = ts();
    st.update_account(tacc(key(1), spl_token::ID, packed(base(key(9), key(8), 1)), 7, 1), Processed);
    st.process_slot_data(slot(7, 6), Confirmed);
    st.update_account(tacc(key(2), spl_token::ID, packed(base(key(9), key(8), 2)), 8, 1), Processed);
    assert_eq!(st.process_slot_data(slot(8, 7), Finalized).len(), 2);
    assert_eq!(amount(&st, key(1), Finalized), Some(1)); assert_eq!(amount(&st, key(2), Finalized), Some(2));
}
'''),
dict(id='mint_index_kept_sorted',prop='C18',needs='an account whose mint changes to one that already has a later account',breaks='the account is missing in queries by its new mint',
 edits=[(TS,"                            occ.get_mut().push_back(token_index);","""                            if occ.get().back().map_or(true, |last| *last < token_index) {
                                occ.get_mut().push_back(token_index);
                            }""")],
 demo=TOK+r'''
#[test] fn demo() {
    let st = ts();
    for (k, m, wv) in [(1, 30, 1), (2, 31, 1), (1, 31, 2)] { st.initilize_or_update_account(tacc(key(k), spl_token::ID, packed(base(key(m), key(8), 5)), 1, wv)); }
    assert_eq!(st.get_program_accounts(spl_token::ID, by(0, key(31)), Finalized).unwrap().len(), 2);
    assert_eq!(st.get_program_accounts(spl_token::ID, by(0, key(30)), Finalized).unwrap().len(), 0);
}
'''),
dict(id='snapshot_without_frozen',prop='C19',needs='a frozen token account in the program of the snapshot',breaks='the snapshot leaves frozen accounts out',
 edits=[(IT,"(*x.first().unwrap() & 0x3 == program_bit)","(*x.first().unwrap() & 0x7 == program_bit)")],
 demo=TOK+r'''
#[test] fn demo() {
    let (a, b) = (ts(), ts()); let mut f = base(key(9), key(8), 5); f.state = spl_token::state::AccountState::Frozen;
    a.initilize_or_update_account(tacc(key(9), spl_token::ID, mint_data(1), 1, 1));
    a.initilize_or_update_account(tacc(key(1), spl_token::ID, packed(base(key(9), key(8), 4)), 1, 1));
    a.initilize_or_update_account(tacc(key(2), spl_token::ID, packed(f), 1, 1));
    b.load_from_snapshot(spl_token::ID, a.create_snapshot(spl_token::ID).unwrap()).unwrap();
    assert_eq!(amount(&b, key(1), Finalized), Some(4)); assert_eq!(amount(&b, key(2), Finalized), Some(5));
}
'''),
dict(id='long_owner_pattern',prop='C20',needs='a request with an owner condition and a longer comparison starting at the same offset',breaks='the owner is forgotten and the request is refused',
 edits=[(TU,"""                if *offset == SPL_TOKEN_ACCOUNT_OWNER_OFFSET {
                    if bytes.len() == PUBKEY_BYTES {""","""                if *offset == SPL_TOKEN_ACCOUNT_OWNER_OFFSET {
                    if bytes.len() >= PUBKEY_BYTES {""")],
 demo=TOK+r'''
#[test] fn demo() {
    let mut f = by(32, key(8)).unwrap(); let mut long = key(8).to_bytes().to_vec(); long.push(1);
    assert_eq!(get_spl_token_owner_mint_filter(&spl_token::ID, &f), (Some(key(8)), None));
    f.push(AccountFilterType::Memcmp(MemcmpFilter { offset: 32, data: MemcmpFilterData::Bytes(long) }));
    assert_eq!(get_spl_token_owner_mint_filter(&spl_token::ID, &f), (Some(key(8)), None));
}
'''),
dict(id='type_byte_masked',prop='C21',needs='an account of Token-2022 with an odd unknown account type',breaks='an unknown account is stored as a mint',
 edits=[(TU,"            if data[165] == 1 {","            if data[165] & 1 == 1 {")],
 demo=TOK+r'''
#[test] fn demo() {
    let st = ts(); let mut d = mint_data(5); d.resize(166, 0);
    d[165] = 1; assert!(st.update_account(tacc(key(1), spl_token_2022::ID, d.clone(), 1, 1), Finalized));
    d[165] = 3; assert!(!st.update_account(tacc(key(2), spl_token_2022::ID, d, 1, 1), Finalized));
    assert!(st.get_account(key(2), Finalized).unwrap().is_none());
}
'''),
dict(id='announcements_not_forwarded',prop='C22',needs='a slot that is announced, then a descendant finalized without further notice',breaks='the store behind does not learn the parents of announced slots, so their updates are not promoted',
 edits=[(OD,"""        self.accounts_storage
            .process_slot_data(slot_info, commitment)""","""        if commitment == Commitment::Processed {
            // nothing becomes visible
            return vec![];
        }
        self.accounts_storage
            .process_slot_data(slot_info, commitment)""")],
 demo=r'''
use lite_account_manager_common::accounts_source_interface::AccountsSourceInterface;
use lite_accounts_on_demand::accounts_on_demand::AccountsOnDemand;
struct Src;
impl AccountsSourceInterface for Src {
    fn subscribe_accounts(&self, _: std::collections::HashSet<Pubkey>) -> Result<(), anyhow::Error> { Ok(()) }
    fn subscribe_program_accounts(&self, _: Pubkey, _: Option<Vec<AccountFilterType>>) -> Result<(), anyhow::Error> { Ok(()) }
    fn save_snapshot(&self, _: Arc<dyn AccountStorageInterface>, _: AccountFilters) -> Result<(), anyhow::Error> { Ok(()) }
}
#[test] fn demo() {
    let f = Arc::new(MutableFilterStore::default()); f.add_account_filters(&vec![filter(0)]);
    let od = AccountsOnDemand::new(Arc::new(Src), f.clone(), Arc::new(InmemoryAccountStore::new(f)));
    od.process_slot_data(slot(7, 6), Processed); od.process_slot_data(slot(8, 7), Processed);
    od.update_account(acc(1, 0, 5, &[1], 7, 1), Processed);
    od.process_slot_data(slot(8, 7), Finalized);
    assert_eq!(first(&od, 1, Finalized), Some(1));
}
'''),
]
