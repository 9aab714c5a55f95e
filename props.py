"""Harnesses per property. bounds: what the harness makes symbolic and what it bounds."""
H = lambda n, bounds, **k: (n, dict(bounds=bounds, **k))
PROPS = {
 'C01': dict(outside='Outside: data and patterns of lengths not listed, undecodable filter text, the token-account-state RPC filter.', harnesses=[
    H('h_memcmp', 'data 0..4 symbolic bytes, byte pattern 0..3 symbolic bytes or 6 fixed patterns in Base58/Base64, any 64-bit offset'),
    H('h_memcmp_long', 'patterns of 8, 31..33 and 64 bytes with 3 symbolic ones, in 3 encodings, data shorter, equal, longer or 165 bytes with 3 symbolic ones, any offset', reach=['matched']),
    H('h_rpc', '1..2 conditions (size with any 64-bit value, memcmp with any offset in 3 encodings) on 0..3 symbolic bytes, stored plain or Zstd'),
 ]),
 'C02': dict(outside='Outside: more than 3 filters apart from one fixed list of 40, more than 2 conditions per filter, account data over 2 bytes.', harnesses=[
    H('h_admit0', 'empty stores'),
    H('h_admit1', '1 filter, 0..2 conditions, symbolic sizes/offsets/bytes, account data 0..2 symbolic bytes'),
    H('h_admit3', '3 filters of 7 kinds for 2 programs, added together or one by one'),
    H('h_admit2', '2 filters, 0..1 conditions each, symbolic sizes/offsets/bytes, account data 0..2 symbolic bytes'),
    H('h_many_filters', '400 filters of 4 kinds with one symbolic byte, added together or one by one', reach=['accepted']),
    H('h_conc_filters', 'a filter added while another is added or asked for, one present, every schedule with up to 3 preemptions', preempt=3, reach=['added']),
    H('h_subsets', '2 stored lists and 1 query of any of 3 conditions with symbolic size and bytes, accounts of 0..2 symbolic bytes in 3 storage encodings', reach=['covered']),
 ]),
 'C03': dict(outside='Outside: more than 3 stored filters apart from one fixed list of 40, more than 2 conditions per filter, account data over 2 bytes.', harnesses=[
    H('h_cov_sound1', '1 stored filter and 1 query of 0..2 conditions, account data 0..2 symbolic bytes', reach=['covered']),
    H('h_cov3', '3 stored filters and 1 query of 7 kinds for 2 programs', reach=['covered']),
    H('h_cov_sound2', '2 stored filters and 1 query of 0..1 conditions, account data 0..2 symbolic bytes', reach=['covered']),
    H('h_cov_complete', '0..2 stored conditions, query = the same in any encoding, reversed, with an extra condition before or after'),
    H('h_cov_except', 'one excluded filter and one query, 0..1 conditions each'),
    H('h_many_filters', '400 filters of 4 kinds with one symbolic byte', reach=['accepted']),
    H('h_subsets', '2 stored lists and 1 query of any of 3 conditions with symbolic size and bytes, accounts of 0..2 symbolic bytes in 3 storage encodings', reach=['covered']),
 ]),
 'C24': dict(outside='Outside: configurations of more than 2 conditions; symbolic numbers in JSON text are below 100.', harnesses=[
    H('h_json_rt', 'one filter of 0..3 accounts, optional program, 7 condition lists with symbolic small numbers, plus extreme numbers'),
    H('h_json_bad', '31 malformed documents with a symbolic digit, alone and inside a list', reach=['digit']),
    H('h_json_doc', 'one document in the documented format'),
    H('h_json_null', 'explicit null program and conditions'),
 ]),
}
PROPS.update({
 'C05': dict(outside='Outside: more than 4 updates or 3 operations per account, apart from one fixed chain of 2100.', harnesses=[
    H('h_abc4', '4 updates of one account at any 64-bit slots, write versions and levels, in any order; all reads after each', time=200),
    H('h_prom2', '1 update then 2 operations (update anywhere, or promotion of any slot to either level)'),
    H('h_prom3', '1 update then 3 operations', tier='thorough', time=400),
    H('h_fill_a', '3 slots of any tree shape, each with an update already or not, given in either order before or after the slots are announced, then 2 further notifications or updates', reach=['promoted']),
    H('h_deep', 'a chain of 2100 slots and a fork, 3 accounts, updated along the chain or backwards, then 4 promotions', reach=['finalized']),
 ]),
 'C06': dict(outside='Outside: more than 3 slots, 4 events, 2 accounts apart from one fixed chain of 2100 slots; notifications of a slot after its children.', harnesses=[
    H('h_hist_a', '3 slots with any increasing numbers and any tree shape, 3 events (update or slot notification of any slot at either level), 1 account', reach=['promoted']),
    H('h_hist_b', '3 slots, 3 events, 2 accounts, updates at every level', reach=['promoted']),
    H('h_hist_c', '3 slots, 4 events, 1 account, 2 owning programs', reach=['promoted']),
    H('h_fill_a', '3 slots of any tree shape, each with an update already or not, given in either order before or after the slots are announced, then 2 further notifications or updates', reach=['promoted']),
    H('h_fill_a3', 'the same with 3 further events', tier='thorough', time=500, reach=['promoted']),
    H('h_fill_a4', '4 slots with 3 further events', tier='thorough', time=800, reach=['promoted']),
    H('h_deep', 'a chain of 2100 slots and a fork, 3 accounts, updated along the chain or backwards, then 4 promotions', reach=['finalized']),
 ]),
 'C07': dict(outside='Outside: more than 2 accounts apart from one fixed set of 2100, lengths not listed, more than 3 conditions.', harnesses=[
    H('h_gpa', '2 accounts in 2 programs at any level with 0..2 symbolic bytes, symbolic lamports/slot/version, 0..1 conditions with symbolic size/offset/pattern', reach=['matched']),
    H('h_gpa_long', '1 account of 31, 33 or 64 bytes with 3 symbolic ones, plain or compressed; an address pattern at any offset, a size, a byte at any offset', reach=['matched']),
    H('h_gpa_moved', '1 account with 2 updates at any slot, version and level, changing program, length, byte, or dying, stored plain, Lz4 or Zstd; 4 condition lists, 2 programs, 3 levels', reach=['listed']),
    H('h_gpa_comp', '1 account in 5 storage encodings, 0..2 conditions', reach=['matched']),
    H('h_many', '2100 accounts of a program, one of another, at any level; all queries', reach=['all-listed']),
 ]),
 'C08': dict(outside='Outside: more than 3 slots, 3 events (4 in thorough), 1 account.', harnesses=[
    H('h_life_a', '3 slots, 3 events (update with live or deleted state, owner inside or outside the filters; slot notification), symbolic versions and lamports', reach=['removed']),
    H('h_life_b', '3 slots, 3 events, 2 tracked programs', reach=['removed']),
    H('h_life_c', '2 slots, 3 events, updates at every level, owner inside or outside', reach=['removed']),
    H('h_life_a4', '3 slots, 4 events', tier='thorough', time=500, reach=['removed']), H('h_life_b4', '3 slots, 4 events', tier='thorough', time=500, reach=['removed']),
    H('h_fill_life', '3 slots, each with a live or deleted state owned inside or outside the filters, then 2 further events', reach=['removed']),
    H('h_fill_life2', 'the same between 2 tracked programs', reach=['removed']),
    H('h_fill_life3', '3 slots filled, 3 further events', tier='thorough', time=800, reach=['removed']),
 ]),
 'C10': dict(outside='Outside: more than 2 accounts apart from one fixed set of 2100, account data over 1 byte in the round trip, malformed snapshots longer than 24 bytes except truncations and single-byte corruptions of a valid one.', harnesses=[
    H('h_snap_rt', '2 accounts with symbolic fields, any level, 4 storage encodings, 2 programs'),
    H('h_snap_newer', 'target already holds a state of any slot/version at any level, in the same or another program'),
    H('h_snap_merge', '3 accounts with symbolic slot and version; the target refuses any one of them and holds older or newer states, live or dead, of the others at any level'),
    H('h_snap_bad', 'every truncation of a valid snapshot; counts 1..2 followed by 0..4 arbitrary bytes'),
    H('h_snap_corrupt', 'any value in a count, tag or length byte of a valid snapshot'),
    H('h_many', '2100 accounts of a program saved and restored', reach=['all-listed']),
 ]),
 'C11': dict(outside='Outside: more than 2 programs with their own store.', harnesses=[
    H('h_disp_prog', '2 program stores and a default recording every call, 6 hash orders'),
    H('h_disp_all', '2 program stores and a default; any of them holding, failing or accepting'),
    H('h_disp_real', '3 real stores, an account moving between programs, symbolic slots'),
 ]),
 'C12': dict(outside='Outside: more than 2 threads or 1 operation each, more than 3 preemptions (5 in thorough), weak memory effects beyond sequential consistency; switches happen at lock operations.', harnesses=[
    H('h_conc_us', 'an update (5 kinds) against a slot notification (2 levels), 3 pending states, 2 hash orders, every schedule with up to 3 preemptions', preempt=3, time=200),
    H('h_conc_uu', 'two updates (5 and 4 kinds), every schedule with up to 3 preemptions', preempt=3, time=200),
    H('h_conc_ff', 'the first account of a program in a slot nobody announced against another first account, an initial load, a second version or the first notification of the slot, every schedule with up to 3 preemptions', preempt=3, time=200),
    H('h_conc_ss', 'two notifications (confirming or finalizing the same slot or one after the other), every schedule with up to 3 preemptions', preempt=3, time=200),
    H('h_conc_rw', 'a read, program query or snapshot against a write, every schedule with up to 3 preemptions', preempt=3, time=200),
 ]),
})
PROPS.update({
 'C04': dict(outside='Outside: the LZ4 and Zstandard codecs themselves (replaced by a contract: compressing then decompressing gives the input back, anything else is an error), data other than 0..4 symbolic bytes or 3000 bytes/10 MiB with 3-4 symbolic bytes.', harnesses=[
    H('h_enc', '0..4 symbolic bytes, 3000 bytes and 10 MiB with symbolic bytes, 5 encodings'),
    H('h_solana', 'symbolic lamports, rent epoch, flag, 0..3 symbolic bytes, 5 encodings'),
    H('h_ser', 'symbolic fields, 0..2 symbolic bytes, 4 encodings'),
 ]),
 'C09': dict(outside='Outside: more than 2 updates (3 in thorough) over 2 accounts, updates that finalize.', harnesses=[
    H('h_adm2', '2 updates, one explicitly listed account and one covered by a program filter with a symbolic size, 2 programs, fixed and mutable filter configuration', reach=['kept', 'refused']),
    H('h_newest', '2 updates at any slot, version and level, or an initial load; the second may leave the filters', reach=['newer', 'older']),
    H('h_adm3', '3 updates', tier='thorough', time=700),
 ]),
})
TOK = 'Outside: finalized updates of an account with pending states, slots numbered 0, foreign-owner updates of unknown accounts. '
PROPS.update({
 'C13': dict(outside='Outside: additional data of other lengths.', harnesses=[
    H('h_tok_codec', 'symbolic fields and keys, every combination of optional parts, additional data absent, 0..3 symbolic bytes, 83 or 300 bytes'),
    H('h_tok_decode', 'symbolic record bytes with any valid flags'),
 ]),
 'C14': dict(outside='Outside: extensions other than 0..2, 83 or 300 bytes. Lamports of token accounts and all rent epochs are not kept by design: they come back rent exempt.', harnesses=[
    H('h_conv_token', 'all fields symbolic, every combination of optional parts, both programs', reach=['token']),
    H('h_conv_mint', 'all fields symbolic, both programs, extensions of 0..2 symbolic bytes, 83 or 300 bytes'),
    H('h_conv_msig', '0..11 signers with one possible default key, symbolic thresholds'),
 ]),
 'C15': dict(outside='Outside: more than 4 operations, more than 2 prefixes apart from one fixed set of 1100 accounts.', harnesses=[
    H('h_tidx2', '2 operations on addresses with 2 prefixes and 3 symbolic bytes, then any other address'),
    H('h_tidx3', '3 operations'),
    H('h_tidx4', '4 operations', tier='thorough', time=600),
    H('h_tmany', '1100 token accounts, 1060 mints: every record found by each query', reach=['restored']),
 ]),
 'C16': dict(outside=TOK + 'More than 3 slots, 4 events apart from one fixed chain of 2100 slots.', harnesses=[
    H('h_th_one', '3 slots of any tree shape, 3 events, 1 account living or deleted, slots announced first, after the first update or never', reach=['notified']),
    H('h_th_kinds', '2 slots, 3 events, 5 kinds including mint, multisig and another owner, an initial state', reach=['query-nonempty']),
    H('h_th_kinds3', '2 slots, 3 events, 6 kinds including another program, initial mint or multisig, slots announced first, later or never', tier='thorough', time=800, reach=['query-nonempty']),
    H('h_th_one4', '3 slots, 4 events, an initial state', tier='thorough', time=600, reach=['notified']),
    H('h_th_kinds4', '2 slots, 4 events, kinds including another program', tier='thorough', time=800, reach=['query-nonempty']),
    H('h_tfill', '3 slots of any tree shape, each with a live or deleted state already or not, given in either order before or after the slots are announced, then 2 further events', reach=['notified']),
    H('h_th_levels', '2 slots, 3 events, updates at every level', reach=['notified']),
    H('h_th_levels4', '3 slots, 4 events, updates at every level', tier='thorough', time=800, reach=['notified']),
    H('h_th_spread', '2 accounts of one program, each changed in any of 3 slots of any tree shape; one promotion', reach=['query-nonempty']),
    H('h_tdeep', 'a chain of 2100 slots and a fork, 3 accounts, updated along the chain or backwards, then 4 promotions', reach=['finalized']),
 ]),
 'C17': dict(outside=TOK + 'More than 3 slots, 4 events, 2 accounts apart from one fixed chain of 2100 slots.', harnesses=[
    H('h_th_one', '3 slots of any tree shape, 3 events, 1 account', reach=['notified']),
    H('h_th_pair', '2 slots, 3 events, 2 accounts sharing their leading address bytes', reach=['notified']),
    H('h_th_pair4', '3 slots, 4 events', tier='thorough', time=800, reach=['notified']),
    H('h_tfill', '3 slots of any tree shape, each with a live or deleted state already or not, given in either order before or after the slots are announced, then 2 further events', reach=['notified']),
    H('h_th_levels', '2 slots, 3 events, updates at every level', reach=['notified']),
    H('h_tfill3', '3 slots filled, 3 further events', tier='thorough', time=800, reach=['notified']),
    H('h_tdeep', 'a chain of 2100 slots and a fork, 3 accounts, updated along the chain or backwards, then 4 promotions', reach=['finalized']),
 ]),
 'C18': dict(outside=TOK + 'More than 2 accounts, 3 events apart from one fixed set of 1100; patterns over 1 byte besides owner and mint.', harnesses=[
    H('h_tquery', 'an account of 4 kinds, finalized or processed; size or type condition, owner and mint known or unknown in 3 encodings, 2 programs, 3 levels', reach=['matched']),
    H('h_tquery_extra', 'a token account with every combination of optional parts; owner or mint and one byte at any offset', reach=['matched']),
    H('h_th_moved', '1 slot, 2 events, 2 accounts, 6 kinds, 2 initial states; 9 queries of 2 programs at 3 levels', reach=['query-nonempty']),
    H('h_th_two', '2 slots, 2 events, 2 accounts, 7 kinds', reach=['query-nonempty']),
    H('h_th_spread', '2 accounts of one program, each changed in any of 3 slots of any tree shape; one promotion; all queries', reach=['query-nonempty']),
    H('h_th_spread3', '3 accounts, 2 promotions', tier='thorough', time=800, reach=['query-nonempty']),
    H('h_th_moved3', '2 slots, 3 events', tier='thorough', time=800, reach=['query-nonempty']),
    H('h_th_kinds4', '2 slots, 4 events, 1 account', tier='thorough', time=800, reach=['query-nonempty']),
    H('h_tfill_kinds', '3 slots each with a state of 4 kinds, 2 further events, all queries', reach=['query-nonempty']),
    H('h_tmany', '1100 token accounts, 1060 mints, one closed; queries by owner, mint and both', reach=['restored']),
 ]),
 'C19': dict(outside='Outside: malformed records of mints in a snapshot, more than 5 accounts apart from one fixed set of 1100. A token account whose mint account is not stored is not restored.', harnesses=[
    H('h_tsnap', '5 accounts in 2 orders, 2 programs, present or absent mints, pending or deleted states; 4 destinations', reach=['restored']),
    H('h_tsnap_bad', 'every truncation; a token account record of 17 lengths with any flags, deletion mark and size byte; a multisig of 1..255 signers', reach=['refused', 'accepted']),
    H('h_tsnap_all', 'as h_tsnap with 5 and 4 kinds', tier='thorough', time=600, reach=['restored']),
    H('h_tmany', '1100 token accounts, 1060 mints, one closed: saved and restored', reach=['restored']),
 ]),
 'C20': dict(outside='Outside: more than 3 conditions, undecodable text.', harnesses=[
    H('h_ownermint', '0..3 conditions of 7 kinds, symbolic sizes, offsets, type bytes and keys', reach=['token-accounts']),
 ]),
 'C21': dict(outside='Outside: lengths other than the 13 listed, more than 3 mints.', harnesses=[
    H('h_classify', '13 lengths, symbolic tags, state and type byte, 3 programs, with and without lamports'),
    H('h_mint_index', '4 registrations of 3 mints'),
 ]),
 'C22': dict(outside='Outside: more than 2 threads, subscriptions that are lost later.', harnesses=[
    H('h_od3', '3 operations: read of 3 accounts, 2 queries, update; any of the first calls failing; symbolic lamports and slots', reach=['loaded', 'program-loaded']),
    H('h_od4', '4 operations', reach=['loaded', 'program-loaded']),
    H('h_od_pass', 'every 3 operations of update, slot notification, initial load and snapshot load, compared with a store without loading on demand', reach=['loaded-snapshot']),
    H('h_od_two', 'two simultaneous requests, equal or one within the other, every schedule with up to 3 preemptions', preempt=3),
    H('h_od_fail', 'the same with a failing load', preempt=3),
    H('h_od_slow', 'a load that takes too long'),
    H('h_od_many', '300 accounts and 40 programs asked for one after another, twice, one load failing', reach=['loaded']),
    H('h_od_during', 'the account changes or ends while it is loaded, before or after its loaded state is delivered, at 3 levels; the loading request and one more, each at any level, in 3 forms', reach=['changed-while-loading']),
    H('h_od5', '5 operations', tier='thorough', time=800, reach=['loaded', 'program-loaded']),
    H('h_od_mix', 'two different requests at the same time, every schedule with up to 2 preemptions', preempt=2, reach=['both-answered']),
    H('h_od_mixu', 'a request and an update or slot notification at the same time, every schedule with up to 2 preemptions', preempt=2, reach=['both-answered']),
    H('h_od_mix3', 'two different requests at the same time, every schedule with up to 3 preemptions', tier='thorough', time=600, preempt=3, reach=['both-answered']),
 ]),
 'C25': dict(outside='Outside: more than 2 threads or 1 operation each, more preemptions than stated, weak memory effects beyond sequential consistency; what a query returns when several accounts change during it.', harnesses=[
    H('h_tc_us', 'an update (3 kinds) against a slot notification (3 kinds), 5 pending states, every schedule with up to 2 preemptions', preempt=2),
    H('h_tc_uu', 'two updates or initial loads (4 and 5 kinds, two new accounts of a mint not known before among them), every schedule with up to 2 preemptions', preempt=2),
    H('h_tc_ff', 'the first account of a mint or in a slot nobody announced against another one, a later version or the first notification of the slot, every schedule with up to 2 preemptions', preempt=2),
    H('h_tc_fin', 'a final update (change, deletion, first account of a new mint) against a read at each level, a query by owner or mint, a snapshot load or another final update, every schedule with up to 2 preemptions', preempt=2),
    H('h_tc_ss', 'two notifications (confirming or finalizing the same slot or one after the other), every schedule with 1 preemption at any lock or atomic operation', preempt=1, fine=True),
    H('h_tc_rs', 'a read at each level against a notification, every schedule with up to 2 preemptions', preempt=2),
    H('h_tc_qs', 'a query or snapshot against a notification, every schedule with up to 2 preemptions', preempt=2),
    H('h_tc_qu', 'a query or snapshot against an update or initial load, every schedule with up to 2 preemptions', preempt=2),
    H('h_tc_ssf', 'two notifications, up to 2 preemptions at any lock or atomic operation', tier='thorough', time=800, preempt=2, fine=True),
    H('h_tc_rsf', 'a read against a notification, up to 2 preemptions at any lock or atomic operation', tier='thorough', time=800, preempt=2, fine=True),
    H('h_tc_us3', 'an update against a notification, up to 3 preemptions', tier='thorough', time=800, preempt=3),
    H('h_tc_uu3', 'two updates, up to 3 preemptions', tier='thorough', time=800, preempt=3),
    H('h_tc_qs3', 'a query or snapshot against a notification, up to 3 preemptions', tier='thorough', time=800, preempt=3),
 ]),
})
PROPS.update({
 'C23': dict(outside='Outside: more than 3 storage files, the decompression and the tar format itself (stand-ins: identity and ustar headers), account data over 13 bytes, write errors of the system. The deserialized bank fields stand in for the Solana types.', harnesses=[
    H('s_file', '0..3 accounts with symbolic fields and data of 0..9 bytes, padded or not, cut short or longer, read whole or in pieces', reach=['account', 'short']),
    H('s_file_bad', 'a file of 0..280 bytes whose account claims any 64-bit data length', reach=['account', 'ended']),
    H('s_archive', '3 files in 2 slots, 4 distributions of accounts, 2 orders in archive and manifest, 2 manifest versions, 10 kinds of disorder', reach=['refused', 'damaged', 'unlisted', 'complete']),
    H('s_unpacked', '3 files in a directory listed in any order, 10 kinds of disorder', reach=['refused', 'unlisted', 'short', 'complete']),
    H('s_parallel', '0..4 files, 1..3 consumers, an unreadable and a refused file, every order in which consumers finish', reach=['done', 'failed']),
    H('s_archive_many', '300 files in 100 slots in 2 orders, one with 400 accounts, one with an account of 300 KB', reach=['complete']),
    H('s_parallel_many', '300 files, 1, 3 or 40 consumers, an unreadable and a refused file, 2 orders', reach=['done', 'failed']),
    H('s_main', 'the program on 2 files in both orders with token and other accounts, one in both files, one closed by a later file; reads at every level', reach=['served']),
 ]),
 'C26': dict(outside='Outside: the HTTP and JSON layers (stand-in: direct calls of the generated trait), jsonParsed and Base64+Zstd encodings, more than 2 accounts or 3 conditions.', harnesses=[
    H('s_rpc_account', 'stored or not or failing, 4 levels, 2 encodings, data of 0..3 bytes stored plain or compressed, any 64-bit slice, symbolic fields, 6 malformed addresses', reach=['refused', 'failed', 'answered', 'absent']),
    H('s_rpc_program', '0..2 accounts or a failing store, any slice and minimum slot, context or not', reach=['refused', 'failed', 'context', 'no-context']),
    H('s_rpc_conditions', '0..3 conditions of 5 kinds with symbolic sizes, offsets and bytes, no level or 8 level names', reach=['refused', 'conditional', 'unconditional']),
    H('s_rpc_b58', 'data as Base58 text with any slice', reach=['answered']),
    H('s_rpc_many', '1200 accounts in an answer, a snapshot of 200 KB', reach=['answered']),
    H('s_rpc_snapshot', 'snapshots of 0..3 symbolic bytes or a failing store', reach=['answered', 'failed', 'refused']),
 ]),
 'C27': dict(outside='Outside: compressed stream messages (their format belongs to the absent client library), failing connections, more than one slot in the stream, schedules with switches other than at waits and between archive entries. The stream client, archive formats and task runtime are stand-ins.', harnesses=[
    H('s_stream', 'up to 7 stream messages about 3 accounts and one slot, arriving in any grouping between the entries of the archive or after the load, final up to 3 levels, 2 file orders, every order of the tasks', reach=['served']),
 ]),
})
