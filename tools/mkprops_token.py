TS = 'token accounts are updated at the processed level and before their slot is finalized; finalized slots form one chain; slots are positive'
p('C13', 'The packed record of a token account gives back every field',
  'Encoding a token account (program, deletion mark, address, owner, mint, amount, state, delegate with its amount, native reserve, close authority, additional bytes, each optional part present or not) and decoding it again gives the same account. The address, owner and mint read straight from the record agree with it, and every valid record decodes to the fields it holds and encodes to the same bytes.',
  ['inputs'], 'all values of all fields, all 16 combinations of optional parts, additional bytes of length 0..3',
  'The flag bits and offsets shift with each combination of optional parts; the test samples random records.',
  [T + 'account_types.rs'], [('record layout', T + 'account_types.rs')], ['encoded bytes', 'decoded fields'])
p('C14', 'Token accounts, mints and multisigs are rebuilt as they were',
  'A token account, mint or multisig of either token program that is taken into the token store and given back has the same address, program, slot, write version and data, byte for byte, including delegate, frozen or uninitialized state, native reserve, close authority, freeze and mint authority, extensions of Token-2022 and the position of every signer. Mints and multisigs keep their lamports, token accounts come back rent exempt.',
  ['inputs'], 'all values of all fields, every combination of optional parts, up to 11 signers, extensions of up to 2 bytes',
  'The test fixture has ordinary accounts of one program only; each optional part has its own conversion in both directions.',
  [T + 'token_program_utils.rs', T + 'account_types.rs'], [('conversion to and from stored form', T + 'token_program_utils.rs')], ['the rebuilt account compared with the original'])
p('C15', 'Token accounts are found by their whole address',
  'The storage of token accounts behaves as a map by whole address, also for addresses that share their leading bytes: saving a known address replaces that account and keeps its index, saving a new one gets a fresh index and is reported as new, deleting removes only that account, lookups by address or index give the newest saved state, and the snapshot of a program has each of its accounts once.',
  ['inputs', 'histories'], 'every sequence of two or three (thorough: four) saves and deletes of addresses with colliding or distinct prefixes and free other bytes',
  'The index uses the first bytes of the address; collisions never appear among the random keys of tests.',
  [T + 'inmemory_token_account_storage.rs'], [('index by partial address', T + 'inmemory_token_account_storage.rs')], ['contains, get by address, get by index, snapshot'])
p('C16', 'Token reads return the newest state known at their commitment level',
  'A read of a token account, mint or multisig returns its newest state (by slot, then write version) at the level: finalized states of the finalized slots, confirmed states of the confirmed slots, processed states of the newest slot, falling back to the stronger level; nothing when that state is a deletion or nothing is known. A read at a weaker level is never older. This holds also for accounts closed and created again as another kind, owner, mint or program.',
  ['histories', 'inputs'], 'every order of up to three (thorough: four) updates and notifications over up to three slots of any tree shape; ' + TS,
  'Order of updates, notifications, forks and late announcements multiplies; tests promote slots in order.',
  [T + 'inmemory_token_storage.rs'], [('pending states by slot', T + 'inmemory_token_storage.rs')], ['reads at the three levels after each history'])
p('C17', 'A slot notification promotes and reports the token accounts of its fork',
  'Confirming a slot reports each account updated in it once, in its newest state. Finalizing a slot makes the newest states of it and its ancestors final, reports exactly those accounts once, and leaves what happened on other forks out; a repeated or older notification reports nothing. An update reports true exactly when it is the newest of its slot.',
  ['histories', 'inputs'], 'every order of up to three (thorough: four) updates and notifications of one or two accounts over up to three slots of any tree shape; ' + TS,
  'Forks and skipped notifications interact over histories that the tests do not script.',
  [T + 'inmemory_token_storage.rs'], [('finalization', T + 'inmemory_token_storage.rs')], ['accounts returned by the notification', 'result of updates'])
p('C18', 'Token queries by owner, mint or kind return exactly the matching accounts',
  'A query of a token program by owner, by mint, by both, or for its mints returns at each level, once each, exactly the live accounts whose state at that level meets every condition given, in whatever encoding and order, and agrees with direct reads, also when accounts are closed, re-created, or change owner, mint, kind or program. A query without such a condition, or of another program, is refused instead of answered incompletely.',
  ['inputs', 'histories'], 'every account content and condition within the bounds, every history of two (thorough: three, four) operations on two accounts; ' + TS,
  'Two indexes, pending states and remaining conditions combine; the tests query fixed owners and mints of final accounts.',
  [T + 'inmemory_token_storage.rs', T + 'token_program_utils.rs'], [('indexes by owner and mint', T + 'inmemory_token_storage.rs'), ('owner and mint conditions', T + 'token_program_utils.rs')], ['result of program queries compared with reads'])
p('C19', 'A token snapshot restores the program and malformed bytes change nothing',
  'A snapshot of a token program contains exactly its finalized live mints, multisigs and token accounts, and loading it makes them readable and listed with unchanged data in an empty store and in one that holds other accounts, other kinds of the same address, or the mints in another order. Malformed bytes are refused with an error, change nothing and never crash, and nothing well-formed is refused.',
  ['inputs', 'histories', 'fault_sequences'], 'every source and destination within the bounds, every truncation, any flags, deletion mark and size byte of a record of 17 lengths',
  'Mint numbers differ between stores; tests load into an empty store. Malformed records are unbounded.',
  [T + 'inmemory_token_storage.rs', T + 'account_types.rs'], [('snapshot', T + 'inmemory_token_storage.rs')], ['reads and queries of the loading store', 'error of a malformed snapshot'])
p('C20', 'The owner and mint of a token query are taken from its conditions only',
  'A list of conditions selects token accounts by owner or mint exactly when it says so: data size 165 (or, for Token-2022, account type 2 at offset 165) together with a 32-byte comparison at the owner or mint offset, in any order, encoding and company. Anything else selects none and never crashes.',
  ['inputs'], 'every list of up to three conditions with any size, offset and key',
  'Lists of conditions combine; tests have none for this.',
  [T + 'token_program_utils.rs'], [('owner and mint conditions', T + 'token_program_utils.rs')], ['owner and mint found'])
p('C21', 'Any account of a token program is recognized by its content or refused',
  'An account is a mint, token account or multisig exactly when its program, length, type byte and tags say so; without lamports or owned by another program it counts as deleted, and anything else is refused with an error, never a crash. Each mint has one number for ever, different mints have different ones, and refused accounts do not register a mint.',
  ['inputs'], 'thirteen lengths around the limits, any tag, state and type bytes, three programs; every sequence of four registrations of three mints',
  'Malformed contents are unbounded; tests use valid accounts.',
  [T + 'token_program_utils.rs'], [('recognition', T + 'token_program_utils.rs')], ['kind of the account', 'mint numbers'])
p('C22', 'What is missing is loaded on demand once, and failures are reported',
  'A read of an unknown account, or a query the filters do not cover, subscribes and loads it before answering; the answer is complete and current, and later requests and updates are served from the store without subscribing again. A failed subscription or load is an error, leaves no claim to be loaded, and is tried again. Of two simultaneous requests one loads and both get the answer, or an error if that fails or takes too long; none hangs.',
  ['histories', 'schedules', 'fault_sequences'], 'every sequence of up to four (thorough: five) requests and updates with failing calls; every schedule of two requests with up to three preemptions',
  'Failures, waiting and loading interleave; the tests use a source that always works.',
  [D + 'accounts_on_demand.rs'], [('loading on demand', D + 'accounts_on_demand.rs')], ['answers', 'calls at the source', 'termination'])
p('C25', 'Concurrent use of the token store never deadlocks or loses a change',
  'Whatever two of updates, initial loads, slot notifications, reads, program queries and snapshots of the token store run at the same time, both end, and their results and the state left behind (reads, queries and snapshot at every level) are those of one of the two orders. In particular an account is never missing, or back at an older state, while its slot is being finalized, and two notifications never take the store back.',
  ['schedules'], 'every pair of operations within the bounds and every schedule of the two threads with the stated number of preemptions',
  'The windows are a few instructions wide; the tests use the token store from one thread.',
  [T + 'inmemory_token_storage.rs', T + 'inmemory_token_account_storage.rs'], [('finalization under the lock of the pending accounts', T + 'inmemory_token_storage.rs')], ['termination', 'results of both operations', 'reads, queries and snapshot afterwards'])
