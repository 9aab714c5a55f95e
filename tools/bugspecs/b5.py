AI='account_storage/src/inmemory_account_store.rs'; AF='common/src/account_filter.rs'; AT='token_account_storage/src/account_types.rs'; OD='accounts_on_demand/src/accounts_on_demand.rs'
BUGS=[
dict(id='query_waits_for_account',prop='C12',needs='a program query while an account of the program is being deleted',breaks='query and update wait for each other for ever',
 edits=[(AI,"""            let lk_on_account = match store_read_lk[*program_account_index].try_read() {
                Ok(lk) => lk,
                Err(_) => {
                    retry_list.push(*program_account_index);
                    continue;
                }
            };
""","""            let Some(account) = store_read_lk.get(*program_account_index) else {
                // will be stored soon
                retry_list.push(*program_account_index);
                continue;
            };
            let lk_on_account = account.read().unwrap();
""")],
 demo=r'''
#[test] fn demo() {
    let st = Arc::new(store(&[0, 1])); let done = Arc::new(std::sync::atomic::AtomicUsize::new(0));
    for i in 0..4u64 {
        let (st, done) = (st.clone(), done.clone());
        std::thread::spawn(move || {
            for n in 0..3000u64 {
                if i < 2 { for k in 0..8 { st.update_account(acc(k + 10 * i as u8, (n % 2) as u8, 5, &[1], n, 1), Finalized); } }
                else { st.get_program_accounts(prog((n % 2) as u8), None, Processed).unwrap(); }
            }
            done.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        });
    }
    let t = std::time::Instant::now();
    while done.load(std::sync::atomic::Ordering::SeqCst) < 4 { assert!(t.elapsed().as_secs() < 60, "stuck"); std::thread::sleep(std::time::Duration::from_millis(50)); }
}
'''),
dict(id='pattern_cut_to_address',prop='C01',needs='a Base58 or Base64 pattern longer than an address',breaks='its bytes after the first 32 are not compared',
 edits=[(AF,"""            data[offset..offset + bytes.len()] == bytes[..]
        }
    }
}""","""            // patterns are addresses at most
            let length = bytes.len().min(32);
            data[offset..offset + length] == bytes[..length]
        }
    }
}""")],demo=r"""
#[test] fn demo() {
    let f = |n: &str| AccountFilterType::Memcmp(MemcmpFilter { offset: 3, data: MemcmpFilterData::Base64("AQEB".repeat(13) + n) });
    assert!(f("AQ==").allows(&[1u8; 50])); assert!(!f("Ag==").allows(&[1u8; 50]));
}
"""),
dict(id='extension_length_16_bits',prop='C13',needs='a record with more than 65535 bytes of extensions',breaks='the length of the extensions is cut, they are not read back',
 edits=[(AT,"let size = additional_data.len() as u32;","let size = additional_data.len() as u16 as u32;")],demo=r"""
use lite_token_account_storage::account_types::*;
#[test] fn demo() {
    let t = TokenAccount { program: Program::Token2022Program, is_deleted: false, pubkey: key(1), owner: key(2), mint: 3, amount: 4, state: TokenProgramAccountState::Initialized, delegate: None, is_native: None, close_authority: None, additional_data: Some(vec![7; 70000]) };
    assert!(TokenAccount::from_bytes(&t.to_bytes()).additional_data == t.additional_data);
}
"""),
]
