#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below and the checks registered in props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from props import PROPS
C, A, T, D, S = 'common/src/', 'account_storage/src/', 'token_account_storage/src/', 'accounts_on_demand/src/', 'simulate_from_snapshot/src/'
P = []
def p(id, title, statement, over, quant, why, files, mech, observe): P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': quant}, 'why_tests_cant': why,
    'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe, 'hook_needed': None}})
p('C01', 'Account conditions match exactly the accounts they describe',
  'A data-size condition accepts an account exactly when the length of its uncompressed data equals the size. A memory-compare condition with plain bytes or validly encoded Base58/Base64 text accepts it exactly when the data contains those bytes at the offset, for every offset and length (beyond the data: no match, never a crash). A list of conditions accepts an account exactly when each does, however its data is stored.',
  ['inputs'], 'every account data content and length, offset, pattern and encoding within the bounds',
  'Tests compare a handful of literal patterns; offsets near the end or near overflow, empty patterns and the encodings cross-multiply.',
  [C + 'account_filter.rs', C + 'account_data.rs'], [('filter evaluation', C + 'account_filter.rs'), ('conversion to RPC filters', C + 'account_filter.rs')], ['account data accepted or not by a filter'])
p('C02', 'A filter configuration accepts exactly the accounts it lists or describes',
  'A filter configuration accepts an account update exactly when its address is listed explicitly, or one configured program filter has its owner and all of its conditions hold. The except configuration accepts exactly the accounts the plain configuration would refuse, and an empty configuration accepts nothing (except: everything). The mutable configuration always agrees with a fixed one built from the same filters, also when several threads add filters or ask at the same time.',
  ["inputs", "configurations", "schedules"], 'every configuration, account and schedule within the bounds',
  'Tests use one or two fixed configurations; the property ranges over all pairs of configuration and account.',
  [C + 'simple_filter_store.rs', C + 'except_filter_store.rs', C + 'mutable_filter_store.rs'], [('admission test', C + 'simple_filter_store.rs')], ['acceptance of an account by each kind of configuration'])
p('C03', 'A request is called covered only if the configuration tracks all its answers',
  'If a filter configuration says it covers a request (a list of accounts, or a program with conditions), then every account the request could return is accepted by the configuration. A request that repeats a configured program filter, with the conditions in any order, any encoding of the same bytes, or more conditions added, is covered. The except configuration never claims to cover a request one of whose answers it excludes.',
  ['inputs', 'configurations'], 'every configuration, request and account within the bounds',
  'Needs a quantifier over accounts inside the claim: a test would have to find the uncovered account itself.',
  [C + 'simple_filter_store.rs', C + 'except_filter_store.rs'], [('coverage test', C + 'simple_filter_store.rs')], ['coverage answer compared with acceptance of any account the request matches'])
p('C04', 'Account data and fields survive every storage encoding and conversion',
  'An account stored uncompressed, LZ4 or Zstandard compressed gives back exactly the bytes put in, reports their uncompressed length and emptiness, and uses the encoding asked for. Converting a Solana account in and out, and serializing an account record, keeps lamports, owner, executable flag, rent epoch, slot, write version and data.',
  ['inputs'], 'every content within the bounds, every encoding; sizes 0..4, 3000 bytes and 10 MiB',
  'Tests convert a few random accounts; swapped fields or a wrong length for one encoding show only for particular values.',
  [C + 'account_data.rs'], [('encoding and decoding', C + 'account_data.rs')], ['data, length and fields of the converted account'])
p('C05', 'Reads of one account never go back and weaker levels are never behind',
  'For one account and any order of updates, a read at a commitment level returns the newest state (by slot, then write version) known at that level or a higher one, and nothing before such a state exists. Over any mix of updates and slot promotions a read never returns an older state than an earlier read at the same level, and a read at a weaker level is never older than one at a stronger level. A promotion reports exactly the state that became readable and the one it replaced.',
  ['histories', 'inputs'], 'every order of updates and promotions within the bounds, all 64-bit slots and versions',
  'The order of slots, versions, levels and promotions multiplies; tests sample a few scripted orders.',
  [A + 'account_data_by_commitment.rs'], [('per-account states by level', A + 'account_data_by_commitment.rs')], ['reads at the three levels', 'result of a promotion'])
p('C06', 'Slot notifications promote exactly that slot and its ancestors',
  'When a slot is confirmed or finalized, every account becomes readable at that level in its newest state among the slot and its ancestors, states on other forks are unaffected, and the call returns exactly the accounts whose readable state at the level changed, once each. An update that arrives for a slot already confirmed is readable as confirmed at once. Reads and program queries at every level agree with this at every step.',
  ['histories', 'inputs'], 'every slot tree of three slots, every order of updates and notifications within the bounds; a slot is announced before it is confirmed, and finalized slots form one chain',
  'Forks, late updates and skipped intermediate notifications interact over long histories.',
  [A + 'inmemory_account_store.rs', A + 'account_data_by_commitment.rs'], [('slot statuses', A + 'inmemory_account_store.rs'), ('promotion', A + 'account_data_by_commitment.rs')], ['reads', 'program queries', 'accounts returned by a slot notification'])
p('C07', 'A program query returns exactly the live matching accounts of the program',
  'A program query at a commitment level returns, once each, exactly the stored accounts that at that level have lamports, belong to the program and satisfy every condition; each with the same fields and data as a direct read. A query the configuration does not cover is refused with an error instead of an incomplete answer.',
  ['inputs', 'histories'], 'every account content, owner, level and condition list within the bounds',
  'Tests query one or two programs with fixed filters; the property covers each combination of owner, level, deletion and condition.',
  [A + 'inmemory_account_store.rs', A + 'account_data_by_commitment.rs'], [('index by owner and recheck', A + 'inmemory_account_store.rs')], ['result of program queries compared with reads'])
p('C08', 'Deleted or departed accounts disappear exactly when that is final',
  'An account whose lamports become zero, or that moves to an owner outside the filters, stays readable in its earlier state at levels where the change is not known, is not returned at levels where its newest state is a deletion, and leaves the store when the change is final unless a newer live state is pending. An account moving between tracked programs is listed for each level under the program of its state at that level only. An account created again after deletion is tracked, readable and listed anew.',
  ['histories', 'inputs'], 'every history of up to three (thorough: four) updates and notifications over three slots for one account',
  'Deletion, re-creation, forks and late updates interact; tests script a few fixed sequences.',
  [A + 'inmemory_account_store.rs', A + 'account_data_by_commitment.rs'], [('deletion and owner change on finalization', A + 'inmemory_account_store.rs')], ['reads', 'program queries', 'whether the store contains the account'])
p('C09', 'A store keeps an account exactly when it passes the filters first',
  'The first update of an account is kept exactly when the filter configuration accepts it; afterwards its updates are taken even if they no longer match, until it leaves. An update newer than everything known is always accepted and immediately readable at its level, an older one never replaces it, and an update that changes what can be read reports true. An initial load counts as finalized, and an unknown or refused account reads as absent without error.',
  ['inputs', 'histories'], 'every sequence of two (thorough: three) updates over two accounts within the bounds',
  'Depends on each combination of configuration, content and order.',
  [A + 'inmemory_account_store.rs'], [('admission', A + 'inmemory_account_store.rs')], ['result of an update', 'reads'])
p('C10', 'A snapshot rebuilds the finalized program accounts and never loses newer state',
  'A snapshot of a program contains exactly its finalized live accounts, and loading it into an empty store makes them readable at every level with all fields, slot, version and data unchanged. Loading into a store that already holds states keeps the newest state per account at each level. Truncated or malformed bytes are refused with an error, change nothing and never crash; a snapshot of a program outside the filters is refused.',
  ['inputs', 'histories', 'fault_sequences'], 'every content, level and prior state within the bounds; every truncation; every value of count, tag and length bytes',
  'Tests round-trip one fixed set; corruption and interplay with newer state are unbounded.',
  [A + 'inmemory_account_store.rs'], [('snapshot creation and loading', A + 'inmemory_account_store.rs')], ['reads and program queries of the loaded store'])
p('C11', 'Routing by program reaches the right store and loses nothing',
  'With one store per program and a default store, program queries, initial loads and snapshots go to the store of that program (or the default) and its answer comes back unchanged. Updates and slot notifications reach every store that wants them exactly once, a read by address finds the account in whichever store holds it, and the promoted accounts of all stores are returned. An account moving between programs of different stores is always found, and listed only under the program of its state at that level.',
  ['configurations', 'histories', 'inputs'], 'every combination of holding, failing and accepting stores, every hash iteration order among six, every slot number',
  'The iteration order of the routing table is random per run, so a test sees one order.',
  [A + 'storage_by_program_id.rs'], [('dispatch', A + 'storage_by_program_id.rs')], ['calls received by each store', 'answers of the dispatcher'])
p('C12', 'Concurrent use of the store never deadlocks or loses an update or promotion',
  'Any two of the operations update, slot notification, read, program query and snapshot running in parallel on one account store both finish. Their results and the state left behind are those of running them one after the other in one of the two orders.',
  ['schedules', 'inputs'], 'every schedule with up to three preemptions (thorough: five), at every lock operation, of every pair of operations in the listed scenarios',
  'The failing schedules need a switch inside a window of a few instructions; tests run one thread.',
  [A + 'inmemory_account_store.rs'], [('lock order', A + 'inmemory_account_store.rs')], ['termination, results and final reads of two threads'])
p('C23', 'Replaying a ledger snapshot yields every account once, or reports why not',
  'Reading a ledger snapshot, packed or unpacked, delivers every account of every storage file the manifest lists exactly once with its stored fields, whatever the order of the files and the sizes of the reads. A storage file that is missing from the manifest, damaged or shorter than listed, and a missing, cut or misplaced manifest, is an error: nothing is left out silently, made up, or read outside the file. Several consumers share the files without loss, and the simulator loads exactly the token accounts of the archive, in their newest version.',
  ['inputs', 'configurations', 'fault_sequences'], 'every field value, every order of three files in two slots, both manifest versions, every claimed data length, ten kinds of damage',
  'The repository has no test of the reader; archives come in every order and damage.',
  [S + 'snapshot_utils/archived.rs', S + 'snapshot_utils/append_vec.rs', S + 'main.rs'], [('archive reader', S + 'snapshot_utils/archived.rs'), ('storage files', S + 'snapshot_utils/append_vec.rs'), ('unpacked snapshots', S + 'snapshot_utils/unpacked.rs'), ('loading', S + 'main.rs')], ['accounts delivered', 'errors reported'])
p('C24', 'Filter configuration text is read faithfully or refused',
  'A filter configuration written as JSON and read back describes the same accounts, program, conditions and sizes. A malformed document (unknown condition, missing or ill-typed field, invalid address, undecodable pattern) is an error, never a crash or a silently different filter, and an explicit null means the field is absent.',
  ['inputs', 'configurations'], 'every configuration of up to two conditions with symbolic numbers; 31 malformed documents with any digit, alone and in a list',
  'Tests read two literal documents.',
  [C + 'account_filter.rs'], [('deserialization', C + 'account_filter.rs')], ['filter read back', 'error for malformed text'])
p('C26', 'The RPC server answers with exactly what its store holds',
  'An account, program or snapshot request asks the store once, for the address, level and conditions it names (finalized if it names no level), and returns every state of the answer unchanged: fields, address, slot and data, cut to the requested part and in the requested encoding. A context names the newest slot of the answer; with a context, states older than the requested minimum slot are left out. A malformed address, a condition that cannot be evaluated and a failing store are errors, never a crash or another answer.',
  ['inputs', 'configurations', 'fault_sequences'], 'every field value, slice and minimum slot; every level, encoding and up to three conditions',
  'The server has no tests; offsets, slots and condition lists are unbounded.',
  [S + 'rpc_server.rs'], [('requests', S + 'rpc_server.rs')], ['calls received by the store', 'answers and error codes'])
p('C27', 'The simulator serves the snapshot together with the stream it follows',
  'While and after the snapshot is loaded, every account and slot message of the stream takes effect: accounts become readable at processed level, and at confirmed and finalized level once a message says so for their slot or for a slot built on it, the newest version winning. Notices of other levels and messages of other kinds change nothing. Accounts the stream does not touch are served from the snapshot at every level.',
  ['schedules', 'histories', 'inputs'], 'every interleaving of up to seven stream messages with the loading of two storage files, both file orders, every schedule of the two tasks at their waits',
  'The program has no tests; the outcome depends on when messages arrive during the load.',
  [S + 'main.rs'], [('stream and load', S + 'main.rs')], ['answers of the RPC server at each level'])
exec(open(V + '/tools/mkprops_token.py').read()) if os.path.exists(V + '/tools/mkprops_token.py') else None
NA = {}
P.sort(key=lambda x: x['id'])
with open(V + '/properties.jsonl', 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
ids = [x['id'] for x in P]
assert all(len(x['title']) <= 80 for x in P), [x['title'] for x in P if len(x['title']) > 80]
assert all(i in PROPS or i in NA for i in ids), [i for i in ids if i not in PROPS and i not in NA]
tech = 'symbolic execution of the compiled LLVM IR with z3 deciding every path and assertion'
def note(i): return ('Every path within the bounds stated in the evidence file is executed symbolically and every assertion is decided by z3 for all values; counterexamples are replayed natively. Trusted: rustc 1.76 IR generation, the engine of /verif/engine (translation-validated on sampled models each run), z3, sequential consistency. ' + PROPS[i]['outside'])
M = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [{'property': i, 'quick_cmd': f'python3 check.py {i}', 'thorough_cmd': f'python3 check.py {i} --tier thorough', 'technique': tech, 'level': 'other', 'level_note': note(i)} for i in ids if i in PROPS],
     'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()], 'notes': 'No hooks in /repo are needed: the harness crate uses public items only. Known and fixed findings: known_findings.json.'}
json.dump(M, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(ids), 'properties,', len(M['checks']), 'checks')
