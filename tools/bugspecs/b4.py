import re,os
_s=open(os.path.dirname(os.path.abspath('tools/bugspecs/b2.py'))+'/b2.py').read()
_g={}; exec(_s,_g); TOK=_g['TOK']
AI='account_storage/src/inmemory_account_store.rs'; TI='token_account_storage/src/inmemory_token_storage.rs'
RACE=r'''
fn race(n: usize, mut f: impl FnMut(usize) -> (Box<dyn FnOnce() + Send>, Box<dyn FnOnce() + Send>, Box<dyn FnOnce() -> bool>)) {
    let t = std::time::Instant::now();
    for i in 0..n {
        let (a, b, ok) = f(i); let bar = Arc::new(std::sync::Barrier::new(2)); let b2 = bar.clone();
        let h = std::thread::spawn(move || { b2.wait(); a() }); bar.wait(); b(); h.join().unwrap();
        assert!(ok(), "round {i}");
        if t.elapsed().as_secs() > 40 { break }
    }
}
'''
BUGS=[
dict(id='finalize_trusts_confirmed',prop='C17',needs='a slot never announced and finalized after a later slot has been confirmed',breaks='its parent is not recorded, so the ancestors are not promoted and their updates are lost',
 edits=[(TI,"""                if self.finalized_slot.load(Ordering::Relaxed) < slot_info.slot {
                    self""","""                if self.confirmed_slot.load(Ordering::Relaxed) < slot_info.slot {
                    // slots up to the confirmed one are already known
                    self"""),(TI,"""update_slot_info(slot_info);
                    self.finalized_slot
                        .fetch_max(slot_info.slot, Ordering::Relaxed);
                }""","""update_slot_info(slot_info);
                }
                self.finalized_slot
                    .fetch_max(slot_info.slot, Ordering::Relaxed);""")],
 demo=TOK+r'''
#[test] fn demo() {
    let st = ts();
    st.update_account(tacc(key(1), spl_token::ID, mint_data(5), 7, 1), Processed);
    st.update_account(tacc(key(2), spl_token::ID, mint_data(5), 8, 1), Processed);
    st.process_slot_data(slot(9, 8), Confirmed);
    let r = st.process_slot_data(slot(8, 7), Finalized);
    assert_eq!(r.len(), 2);
    assert!(st.get_account(key(1), Finalized).unwrap().is_some());
}
'''),
dict(id='slot_inserted_twice',prop='C25',needs='two simultaneous first updates of a slot',breaks='one of the two updates is lost',
 edits=[(TI,"""        let mut lk = self.processed_slot_accounts.write().unwrap();
        match lk.get_mut(&slot) {
            Some(processed_account_by_slot) => {
                match""","""        let is_known = self
            .processed_slot_accounts
            .read()
            .unwrap()
            .contains_key(&slot);
        let mut lk = self.processed_slot_accounts.write().unwrap();
        match lk.get_mut(&slot).filter(|_| is_known) {
            Some(processed_account_by_slot) => {
                match""")],
 demo=TOK+RACE+r'''
#[test] fn demo() {
    race(200000, |_| {
        let st = Arc::new(ts()); let (s1, s2) = (st.clone(), st.clone());
        let (a, b) = (tacc(key(1), spl_token::ID, mint_data(5), 7, 1), tacc(key(2), spl_token::ID, mint_data(5), 7, 1));
        (Box::new(move || { s1.update_account(a, Processed); }), Box::new(move || { s2.update_account(b, Processed); }),
         Box::new(move || st.get_account(key(1), Processed).unwrap().is_some() && st.get_account(key(2), Processed).unwrap().is_some()))
    })
}
'''),
dict(id='mint_list_replaced',prop='C25',needs='two simultaneous initial loads of the first accounts of a mint',breaks='one of the two is missing from the queries by mint',
 edits=[(TI,"""                    match self.accounts_index_by_mint.entry(mint_index) {
                        dashmap::mapref::entry::Entry::Occupied(mut occ) => {
                            occ.get_mut().push_back(token_index);
                        }
                        dashmap::mapref::entry::Entry::Vacant(v) => {
                            let mut q = VecDeque::new();
                            q.push_back(token_index);
                            v.insert(q);
                        }
                    }""","""                    if let Some(mut indexes) = self.accounts_index_by_mint.get_mut(&mint_index) {
                        indexes.push_back(token_index);
                    } else {
                        self.accounts_index_by_mint
                            .insert(mint_index, VecDeque::from([token_index]));
                    }""")],
 demo=TOK+RACE+r'''
#[test] fn demo() {
    race(200000, |_| {
        let st = Arc::new(ts()); let (s1, s2) = (st.clone(), st.clone());
        let (a, b) = (tacc(key(1), spl_token::ID, packed(base(key(5), key(9), 3)), 7, 1), tacc(key(2), spl_token::ID, packed(base(key(5), key(9), 4)), 7, 1));
        (Box::new(move || { s1.initilize_or_update_account(a); }), Box::new(move || { s2.initilize_or_update_account(b); }),
         Box::new(move || st.get_program_accounts(spl_token::ID, by(0, key(5)), Finalized).unwrap().len() == 2))
    })
}
'''),
dict(id='confirmed_ancestor_forgotten',prop='C06',needs='a slot confirmed only through its child, and finalized through it too',breaks='the accounts updated in the ancestor never become readable as finalized',
 edits=[(AI,"""                        for account in &status.accounts_updated {
                            match writable_accounts.entry(*account) {""","""                        // the ancestors are not notified again
                        let accounts_updated = if parent.is_some() {
                            status.accounts_updated.clone()
                        } else {
                            std::mem::take(&mut status.accounts_updated)
                        };
                        for account in &accounts_updated {
                            match writable_accounts.entry(*account) {""")],
 demo=r'''
#[test] fn demo() {
    let st = store(&[0]);
    st.process_slot_data(slot(7, 6), Processed); st.process_slot_data(slot(8, 7), Processed);
    st.update_account(acc(1, 0, 5, &[1], 7, 1), Processed);
    assert_eq!(st.process_slot_data(slot(8, 7), Confirmed).len(), 1);
    assert_eq!(st.process_slot_data(slot(8, 7), Finalized).len(), 1);
    assert_eq!(first(&st, 1, Finalized), Some(1));
}
'''),
dict(id='snapshot_keeps_known',prop='C10',needs='a snapshot loaded into a store that holds an older state of one of its accounts',breaks='the older state is kept',
 edits=[(AI,"""        for account_data in accounts {
            self.initilize""","""        for account_data in accounts {
            if self.account_store_contains_key(&account_data.pubkey) {
                // do not replace accounts which are already followed
                continue;
            }
            self.initilize""")],
 demo=r'''
#[test] fn demo() {
    let a = store(&[0]); a.update_account(acc(1, 0, 5, &[2], 9, 1), Finalized);
    let b = store(&[0]); b.update_account(acc(1, 0, 5, &[1], 4, 1), Finalized);
    b.load_from_snapshot(prog(0), a.create_snapshot(prog(0)).unwrap()).unwrap();
    assert_eq!(first(&b, 1, Finalized), Some(2));
}
'''),
dict(id='owner_set_replaced',prop='C12',needs='the first two accounts of a program updated at the same time',breaks='one of the two is missing from the program queries',
 edits=[(AI,"""        match self.accounts_by_owner.entry(owner) {
            dashmap::mapref::entry::Entry::Occupied(mut occ) => {
                occ.get_mut().write().unwrap().insert(account_index);
            }
            dashmap::mapref::entry::Entry::Vacant(vc) => {
                let mut set = BTreeSet::new();
                set.insert(account_index);
                vc.insert(Arc::new(RwLock::new(set)));
            }
        }""","""        let accounts = self.accounts_by_owner.get(&owner).map(|x| x.clone());
        match accounts {
            Some(accounts) => {
                accounts.write().unwrap().insert(account_index);
            }
            None => {
                let set = BTreeSet::from([account_index]);
                self.accounts_by_owner
                    .insert(owner, Arc::new(RwLock::new(set)));
            }
        }""")],
 demo=RACE+r'''
#[test] fn demo() {
    race(200000, |_| {
        let st = Arc::new(store(&[0])); let (s1, s2) = (st.clone(), st.clone());
        (Box::new(move || { s1.update_account(acc(1, 0, 5, &[1], 4, 1), Processed); }), Box::new(move || { s2.update_account(acc(2, 0, 5, &[1], 4, 1), Processed); }),
         Box::new(move || st.get_program_accounts(prog(0), None, Processed).unwrap().len() == 2))
    })
}
'''),
]
