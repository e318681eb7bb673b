"""Writes /verif/properties.jsonl."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=mech, where=', '.join(files))])))

p('C01', 'The repo tree is an exact ordered map',
  'After any sequence of adding, updating and deleting valid keys, looking up a key returns exactly the value last written to it, or nothing if it was never written or was deleted, and listing returns exactly the current keys, each once, in ascending order, honouring the requested bounds and prefix. Adding a key that is present, or updating or deleting one that is absent, raises an error. Operations never change the contents of the tree they started from.',
  ['inputs', 'histories'], 'every tree reachable by any sequence of operations, fully in memory, loaded from storage, or partly of each; every key',
  'The tests use a few hand-picked keys and one random tree; node splits and merges depend on the hash layers of neighbouring keys, so the interesting shapes are rare in samples.',
  ['arroba/mst.py'], 'Nodes are sequences of leaves and subtrees; add/update/delete rebuild the path to the key, splitting and merging subtrees.')
p('C02', 'The tree root CID depends only on the current contents',
  'Two repo trees holding the same keys and values have the same root CID, whatever order or history of adds, updates and deletes produced them. In particular deleting everything gives the empty tree\'s CID, and a key\'s depth is always the one its hash dictates.',
  ['inputs', 'histories'], 'every pair of histories that end in the same contents',
  'Tests compare roots for a handful of permutations; canonical form must hold for every shape, including layers that become empty and roots that must shrink.',
  ['arroba/mst.py'], 'Layer = leading zeros of the key hash; trees are trimmed at the top and never hold empty or adjacent subtrees.')
p('C03', 'Tree node encoding is lossless',
  'Encoding a tree node for storage and decoding it again gives back the same keys, values and child links in the same order, and every stored key is split at the longest prefix it shares with the key before it in the node. A node that holds an invalid key or two neighbouring child links is refused.',
  ['inputs'], 'every well-formed node',
  'Prefix compression depends on how neighbouring keys overlap; tests cover a few fixtures.',
  ['arroba/mst.py'], 'serialize_node_data / deserialize_node_data, prefix compressed entries.')
p('C04', 'Persisting a tree writes every block needed to read it back',
  'The set of new blocks reported for a tree, together with what storage already has, contains every node of the tree under its own CID, and the reported root is the tree\'s root CID; so after writing them, a tree loaded from that root has the same contents. Each reported block is filed under the CID of its bytes.',
  ['inputs', 'histories'], 'every tree whose already stored subtrees are completely stored',
  'Tests count blocks for some fixed trees; completeness must hold for every mix of stored and unstored subtrees.',
  ['arroba/mst.py', 'arroba/storage.py'], 'Recursion that stops at nodes storage already has.')
p('C05', 'Tree diffs are exact',
  'The diff of two trees lists as adds exactly the keys only the new tree has with their values, as deletes exactly the keys only the old tree has with their values, and as updates exactly the keys both have with different values, with both values. The diff of a tree against nothing lists every key as added, and every node and value of it as new.',
  ['inputs'], 'every pair of trees',
  'The double walk has a dozen cases that depend on how layers of the two trees align; tests reach a few of them.',
  ['arroba/diff.py', 'arroba/mst.py'], 'Two walkers advanced in lock step.')
p('C06', 'Covering proofs contain the nodes needed to invert each operation',
  'The covering proof for an operation on a path contains every tree node on the way from the root to that path, plus every node on the way down to the key just before it and to the key just after it. Every block in the proof is the stored block with that CID.',
  ['inputs'], 'every stored tree and every path, present or absent',
  'Tests use a few upstream fixtures; which neighbours are needed depends on the shape of the tree around the path.',
  ['arroba/mst.py', 'arroba/firehose.py', 'arroba/xrpc_sync.py'], 'add_covering_proofs walk.')
p('C07', 'A commit applies exactly its writes and describes them',
  'A successful commit leaves the repo holding exactly the old records changed by the given writes in order, sets its head to a new commit that links to the previous head, carries the repo DID and version 3, and whose data is the new tree\'s root; its revision encodes its sequence number. The commit lists one operation per write that changed something, with path, new CID and previous CID, its blocks include the commit, every created or updated record and every new tree node, and all of them are in storage afterwards.',
  ['inputs', 'histories'], 'every repo and every list of writes that the commit accepts',
  'Tests commit a few writes at a time to small repos.',
  ['arroba/storage.py'], 'Storage._commit.')
p('C08', 'A failed commit changes nothing but the sequence counter',
  'If a commit fails for any reason before its blocks are written, the stored repo keeps its head, contents and status, and no block has been added to storage; reading through the repo afterwards gives what it gave before. The sequence number that it had allocated is reported to the repo\'s callback as lost exactly once, the callback is never given data for it, and the error reaches the caller.',
  ['inputs', 'fault_sequences'], 'every failing list of writes, wherever in the list it fails, and every exception raised inside the commit',
  'Tests check the error of single-write commits; state left behind by a failure in the middle of a list is not examined.',
  ['arroba/storage.py'], 'Storage.commit / _commit with in-memory storage.')
p('C09', 'Invalid, oversized and unauthorised-state writes are refused',
  'A commit to a repo whose passed-in or stored status is not active raises an inactive-repo error; so does nothing else first. A commit with more than 200 operations, with a record over 1,000,000 encoded bytes, updating or deleting a path that is absent, creating one that is present, or using a path that is not a valid key is refused with an error, and one with exactly 200 operations or exactly 1,000,000 bytes is not refused for its size.',
  ['inputs'], 'every repo state and every list of writes',
  'Tests check one value on one side of each limit.',
  ['arroba/storage.py', 'arroba/mst.py'], 'Checks in Storage._commit, ensure_valid_key.')
p('C10', 'Sequence numbers are never reused and always increase',
  'For each event stream, every allocation of a sequence number on in-memory storage returns exactly one more than the previous one, starting at 1, and the last-allocated query returns the latest allocated one, or nothing before the first. Streams do not affect each other, and every commit and every event takes its own fresh number, used for all of its blocks and for the number inside the event.',
  ['histories'], 'every interleaving of allocations, commits and events over any streams',
  'Tests make a few allocations.',
  ['arroba/storage.py'], 'MemorySequences, Storage.commit, Storage.write_event.')
p('C11', 'TIDs encode timestamps losslessly and sort chronologically',
  'Encoding any timestamp from 0 to 2^55-1 microseconds, with any clock id from 0 to 1023, gives 13 characters of the base32-sortable alphabet that decode to the same timestamp, as an integer or as a date; anything that is not 13 characters is refused. TIDs sort as strings in the order of their timestamps, and at equal timestamps in the order of their clock ids.',
  ['inputs'], 'every timestamp and clock id in range',
  'Tests convert a few timestamps; padding and sorting depend on the digits.',
  ['arroba/util.py'], 's32encode, s32decode, int_to_tid, tid_to_int, datetime_to_tid, tid_to_datetime.')
p('C12', 'Newly generated TIDs strictly increase even if the clock does not',
  'Within a process, each new TID sorts strictly after every TID generated before it, even when the clock repeats or goes backwards, and its timestamp is never earlier than the clock.',
  ['histories'], 'every sequence of calls and clock readings',
  'Tests check one pair of calls.',
  ['arroba/util.py'], 'next_tid keeps the last timestamp.')
p('C13', 'Signatures are low-S, verify, and cover every field',
  'Signing an object adds a 64-byte signature, changes no other field, and the signature\'s second half is at most half the curve order, both for objects and for inter-service tokens. Verification accepts an object exactly when its signature is 64 bytes and is a valid signature of the object without the signature by the given key, and never modifies the object.',
  ['inputs'], 'every object and key',
  'Which half of the order a signature falls in is random; tests sign a few objects.',
  ['arroba/util.py'], 'sign, apply_low_s_mitigation, verify_sig, service_jwt.')
p('C14', 'A firehose subscriber sees every event once, in order',
  'Events delivered to one subscriber have strictly increasing sequence numbers, wherever it switches from storage to the rollback window to live events, and whatever other subscribers and the collector do meanwhile. From its cursor (or, without one, from when it is enrolled), it misses no event that storage held before the rollback window, or that the collector put or kept in the window or delivered live; only an event stored after the collector had gone past its number may be missed, and a subscriber that a whole window of events overtakes is disconnected with an error instead of being skipped ahead.',
  ['schedules', 'histories', 'inputs'], 'every cursor, rollback window, stored history and interleaving with the collector and other subscribers at the points where the shared state is not locked',
  'Tests drive one or two subscribers sequentially; hand-offs race with the collector and with other subscribers.',
  ['arroba/firehose.py'], 'subscribe: storage, handoff copy, catch-up, live queue.')
p('C15', 'The collector emits in order, once, and waits for gaps',
  'The collector emits events with strictly increasing sequence numbers, each to the rollback window and to every enrolled subscriber. It never skips past a sequence number that was not emitted and not marked lost unless it has waited for the configured delay since the last event, or that number is further behind the newest allocated one than the configured window.',
  ['histories', 'inputs'], 'every history of events becoming visible, lost markers, and times',
  'Tests use short histories with fixed times.',
  ['arroba/firehose.py'], 'Collector._collect.')
p('C16', 'Reading events back returns each stored event once, complete, in order',
  'Reading stored events from a sequence number returns exactly the commits and other events with that number or higher, each once, in ascending order, and none from imported blocks. Each commit comes with all blocks stored under its number, every record its operations created or updated, and its tree root.',
  ['inputs', 'histories'], 'every stored history and start',
  'Tests use a few commits; grouping depends on how blocks with different numbers interleave and on blocks reused from earlier commits.',
  ['arroba/storage.py'], 'Storage.read_events_by_seq.')
p('C17', 'Write XRPC methods require the configured bearer token',
  'Creating, putting and deleting records, importing repos, applying writes, uploading blobs, and reading or refreshing a session fail without touching storage unless a token is configured and the request\'s authorization header is exactly that bearer token. Creating a session returns the token only for a known repo and only if the password is the configured one.',
  ['inputs', 'configurations'], 'every request and configuration, for every one of these methods',
  'Tests send no token to a few methods.',
  ['arroba/server.py', 'arroba/xrpc_repo.py', 'arroba/xrpc_server.py'], 'server.auth is called before any effect.')
p('C18', 'Inactive repos are neither served nor changed',
  'Looking up a repo for an XRPC method by DID, handle or at:// URI returns the stored repo exactly when it exists and is active, and otherwise fails with RepoNotFound or RepoDeactivated. Deactivating, activating or tombstoning a repo changes its status accordingly and emits exactly one corresponding event with a fresh sequence number, except that activating a tombstoned repo does nothing.',
  ['inputs', 'histories'], 'every repo state, identifier and sequence of status changes',
  'Tests check one transition each.',
  ['arroba/server.py', 'arroba/storage.py'], 'server.load_repo, _set_repo_status, write_event.')
p('C19', 'Paging through listRepos visits every repo exactly once',
  'Following cursors through the repo list, with any page size, returns every stored repo exactly once in ascending DID order, with its DID, head, and status, and the last page has no cursor or an empty page follows. Each page has at most the requested number of repos.',
  ['inputs', 'histories'], 'every set of repos and page size',
  'Tests fetch one or two pages.',
  ['arroba/xrpc_sync.py', 'arroba/storage.py'], 'MemoryStorage.load_repos, list_repos.')
p('C20', 'A repo export contains the whole repo',
  'Exporting a repo yields its head commit first, then every tree node reachable from it and every record, each under its own CID, so the repo can be rebuilt from the export alone. The number of blocks is finite and no block outside the repo is included.',
  ['inputs', 'histories'], 'every stored repo',
  'Tests export small repos.',
  ['arroba/xrpc_sync.py', 'arroba/mst.py'], 'get_repo, MST.load_all.')
p('C21', 'Import only accepts repos signed by their DID',
  'Importing a repo stores something only if the archive\'s first root is one of its blocks, the commit verifies with the signing key in its DID\'s document, and no repo exists for that DID. The imported repo is created deactivated with that commit as its head and new keys, and its blocks are not emitted on the firehose.',
  ['inputs'], 'every archive, DID document and storage state',
  'Tests import one good and a few bad archives.',
  ['arroba/xrpc_repo.py'], 'import_repo.')
p('C22', 'DID key encoding and DID documents round-trip',
  'A public key on either supported curve encoded as a did:key decodes to the same key, and other curves are refused. The document built for a PLC operation yields, when read back, that operation\'s DID, signing key, handle and PDS endpoint; documents without them yield none.',
  ['inputs'], 'every key and every PLC operation',
  'Tests use a couple of keys and documents.',
  ['arroba/did.py'], 'encode_did_key, decode_did_key, get_signing_key, get_handle, plc_operation_to_did_doc.')
p('C23', 'PLC operations are signed, chained and addressed correctly',
  'Each operation sent to the PLC directory goes to the directory\'s URL for its DID, is signed by the rotation key, and for an update or rollback links to the latest operation in the audit log. A new DID is derived from the hash of the signed operation, updates keep the aliases and handle that were not changed, and rollback is refused unless the key is among the current rotation keys and the log is long enough.',
  ['inputs'], 'every audit log, handle, key and option',
  'Tests use logs with one or two operations.',
  ['arroba/did.py'], 'write_plc, write_plc_operation, update_plc, rollback_plc.')
p('C24', 'A lease is only released by a holder whose lease has not expired',
  'Acquiring a lease succeeds only by atomically adding its key with a positive expiration no shorter than requested, and otherwise raises after the configured number of retries. Releasing deletes the key only if, by the clock read before it was acquired, the requested expiration has not passed, so a lease that may have expired and been taken by another worker is not deleted.',
  ['inputs', 'histories'], 'every expiration, clock reading, retry count and outcome of the add calls',
  'Tests mock one timing each.',
  ['arroba/memcache.py'], 'Lease.acquire, Lease.release.')
p('C25', 'at:// URIs round-trip',
  'Building an at:// URI from a DID, collection and record key, none of which contains a delimiter, and parsing it gives back the same three parts. Building refuses an empty part and parsing refuses anything that does not start with at://.',
  ['inputs'], 'every DID, collection and record key without URI delimiters',
  'Tests parse a few URIs.',
  ['arroba/util.py'], 'at_uri, parse_at_uri.')
p('C26', 'Stored blocks are never overwritten',
  'Once a block is stored under a CID, no later write, event or commit changes what reading that CID returns, including its sequence number and operations. Every block written is stored under the CID of its bytes, reading an absent CID returns nothing, and batch reads return exactly what single reads would, for exactly the requested CIDs.',
  ['inputs', 'histories'], 'every sequence of storage operations',
  'Tests write a block twice in one order.',
  ['arroba/storage.py'], 'MemoryStorage.write, write_blocks, read, read_many, read_many_raw, has; Block.')
p('C27', 'Only valid identifiers are resolved, and only to DIDs',
  'Resolving a DID fetches only the URL its method dictates and refuses anything that is not a did:plc or did:web; resolving a handle refuses an invalid handle, and otherwise returns either nothing or a string that starts with did: taken from the handle\'s DNS record or, failing that, its well-known URL.',
  ['inputs'], 'every identifier and response',
  'Tests use fixed responses.',
  ['arroba/did.py'], 'resolve, resolve_plc, resolve_web, resolve_handle.')
p('C28', 'Record reads return exactly what the repo holds',
  'Getting a record by collection and key returns the stored record with its URI and CID exactly when the repo\'s tree has that path, and fails otherwise. Listing a collection returns exactly the records of that collection from the cursor on, in key order, up to the limit, with a cursor when the limit is reached.',
  ['inputs', 'histories'], 'every repo, collection, key, limit and cursor',
  'Tests list a few records.',
  ['arroba/xrpc_repo.py', 'arroba/repo.py', 'arroba/mst.py'], 'get_record, list_records, Repo.get_record, Repo.get_contents.')
p('C29', 'Datastore and memcache backed sequence numbers are unique',
  'Sequence numbers allocated from the datastore or memcache backed allocators are never issued twice, across processes, crashes and memcache evictions.',
  ['schedules', 'crash_points', 'fault_sequences'], 'every interleaving of allocations, evictions and crashes',
  'The tests for these need the datastore emulator and use single allocations.',
  ['arroba/datastore_storage.py'], 'DatastoreSequences, MemcacheSequences.')
p('C30', 'Remote blobs are described by what was fetched',
  'A remote blob\'s CID and size are those of the bytes fetched from its URL, and blobs over the size or duration limit are refused.',
  ['inputs'], 'every response',
  'Tests need the datastore emulator.',
  ['arroba/datastore_storage.py'], 'AtpRemoteBlob.')
with open('/verif/properties.jsonl', 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
