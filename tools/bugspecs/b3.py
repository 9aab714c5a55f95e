AI='account_storage/src/inmemory_account_store.rs'
BUGS=[
dict(id='departed_kept_until_deleted',prop='C08',needs='an account that moves to a program nobody follows, by an update that becomes final',breaks='the account stays in the store and is returned under its new owner',
 edits=[(AI,"""                    return true;
                }""","""                    return Self::is_deleted(new_account_data);
                }""")],
 demo=r'''
#[test] fn demo() {
    let st = store(&[0]);
    st.update_account(acc(1, 0, 5, &[1], 4, 1), Finalized);
    st.process_slot_data(slot(5, 4), Processed);
    st.update_account(acc(1, 1, 5, &[2], 5, 2), Processed);
    assert_eq!(first(&st, 1, Finalized), Some(1));
    st.process_slot_data(slot(5, 4), Confirmed); st.process_slot_data(slot(5, 4), Finalized);
    assert!(!st.account_store_contains_key(&key(1)));
    assert_eq!(first(&st, 1, Finalized), None);
}
'''),
dict(id='deletion_needs_empty_data',prop='C08',needs='a deletion whose record still carries data',breaks='the account is never removed from the store, although it is gone',
 edits=[(AI,"""        account.account.lamports == 0
    }""","""        account.account.lamports == 0 && account.account.data.is_empty()
    }""")],
 demo=r'''
#[test] fn demo() {
    let st = store(&[0]);
    st.update_account(acc(1, 0, 5, &[1], 4, 1), Finalized);
    st.update_account(acc(1, 0, 0, &[2], 5, 2), Finalized);
    assert!(!st.account_store_contains_key(&key(1)));
}
'''),
]
