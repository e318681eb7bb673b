"""What each property's check verifies: root functions (the contracts they call are verified
with them), lemmas, and the bounded cross-check."""

TID_LEMMAS = ['p32_mono', 'rep_zero', 's32_range', 's32_order', 'tid_order']

MST_LEMMAS = ['seq_middle', 'mst_entries', 'mst_layer', 'mst_bounds', 'mst_keys', 'mst_first',
              'mst_unique', 'mst_root', 'mst_content', 'mst_nodes']

CODEC_LEMMAS = ['pfx_empty', 'mst_enc', 'mst_enc_node', 'mst_enc_first', 'mst_codec',
                'mst_enc_entries', 'mst_serok', 'mst_skel_at', 'mst_serok_at', 'mst_cid']

PROPS = {
    'C01': {
        'functions': ['mst.MST.get', 'mst.MST.add', 'mst.MST.update', 'mst.MST.delete',
                      'mst.MST.split_around', 'mst.MST.append_merge', 'mst.MST.delete_recurse',
                      'mst.MST.trim_top', 'mst.MST.find_gt_or_equal_leaf_index',
                      'mst.ensure_valid_key', 'mst.layer_for_entries',
                      'mst.MST.walk_leaves_from', 'mst.MST.list', 'mst.MST.list_with_prefix'],
        'lemmas': MST_LEMMAS,
        'finder': 'f_mst.py',
        'note': 'get, add, update and delete (and all they call, loading and encoding nodes '
                'included) are proved to be the operations of an ordered map, for every tree, key '
                'and value, and to change no existing node; list and list_with_prefix (with the '
                'generator walk_leaves_from, taken as run to its end) to return exactly the keys '
                'within the bounds, in order.',
    },
    'C02': {
        'functions': ['mst.MST.add', 'mst.MST.update', 'mst.MST.delete', 'mst.MST.trim_top',
                      'mst.MST.delete_recurse', 'mst.MST.split_around', 'mst.MST.append_merge',
                      'mst.leading_zeros_on_hash', 'mst.MST.get_layer', 'mst.MST.get_pointer',
                      'mst.MST.attempt_get_layer', 'mst.layer_for_entries'],
        'lemmas': MST_LEMMAS,
        'finder': 'f_mst.py',
        'note': 'Every operation is proved to make a well-formed tree: keys ascend, each is on '
                'the layer its hash says, no two subtrees are neighbours and the root is not a '
                'lone subtree; lemmas prove that such trees with the same contents have the same '
                'root CID, which get_pointer is proved to compute (DAG-CBOR and hashing are assumed '
                'to be injective).',
    },
    'C03': {
        'functions': ['mst.serialize_node_data', 'mst.MST.get_entries', 'mst.cid_for_entries',
                      'mst.common_prefix_len', 'mst.ensure_valid_key', 'mst.MST.get_pointer'],
        'lemmas': CODEC_LEMMAS,
        'finder': 'f_mst.py',
        'note': 'Encoding (longest shared prefixes, child links) and decoding of nodes are '
                'proved, and that decoding an encoded node gives back its entries, for every '
                'node; DAG-CBOR and hashing are assumed to be injective, stored trees complete.',
    },
    'C04': {
        'functions': ['mst.MST.get_unstored_blocks', 'mst.MST.get_pointer',
                      'mst.MST.get_entries'],
        'lemmas': CODEC_LEMMAS + ['mst_under', 'mst_nodes'],
        'finder': 'f_mst.py',
        'note': 'Proved for every tree and every state of MemoryStorage: every node of the tree '
                'is stored already or among the new blocks, which are only its nodes, each '
                'under the hash of its bytes.',
    },
    'C07': {
        'functions': ['storage.Storage.commit', 'storage.Storage._commit'],
        'lemmas': [],
        'finder': 'f_storage.py',
        'note': 'Storage.commit and _commit over MemoryStorage proved for every list of writes '
                'and every stored state, against the MST contracts (proved, see C01 and C04); '
                'record validation, hashing and encoding are assumed contracts.',
    },
    'C08': {
        'functions': ['storage.Storage.commit', 'storage.Storage._commit'],
        'lemmas': [],
        'finder': 'f_storage.py',
        'note': 'The exceptional postconditions of Storage.commit over MemoryStorage proved for '
                'every refused commit: no repo, tree or block changes, one number is reported lost.',
    },
    'C09': {
        'functions': ['storage.Storage.commit', 'storage.Storage._commit'],
        'lemmas': [],
        'finder': 'f_storage.py',
        'note': 'Storage.commit proved to succeed only for active repos, at most 200 writes and '
                'writes none of which has to be refused, for every state over MemoryStorage; '
                'lexicon validation is an assumed contract.',
    },
    'C10': {
        'functions': ['storage.MemorySequences.__init__', 'storage.MemorySequences.allocate',
                      'storage.MemorySequences.last', 'storage.MemoryStorage.write_event',
                      'storage.MemoryStorage.write', 'storage.MemoryStorage.deactivate_repo',
                      'storage.MemoryStorage.activate_repo',
                      'storage.MemoryStorage.tombstone_repo', 'storage.Storage.commit'],
        'lemmas': [],
        'finder': 'f_storage.py',
        'note': 'Every function that allocates a number is proved to take the next one and to '
                'change no other stream, over MemorySequences and in one thread.',
    },
    'C16': {
        'functions': ['storage.MemoryStorage.read_blocks_by_seq'],
        'lemmas': [],
        'finder': 'f_storage.py',
        'note': 'read_blocks_by_seq (order, completeness, each block once) is proved for every '
                'stored state; Storage.read_events_by_seq, a generator, is checked only by the '
                'bounded cross-check.',
    },
    'C17': {
        'functions': ['server.auth', 'xrpc_repo.create_record', 'xrpc_repo.put_record',
                      'xrpc_repo.delete_record', 'xrpc_repo.apply_writes',
                      'xrpc_repo.upload_blob', 'xrpc_repo.import_repo', 'xrpc_server.create_session',
                      'xrpc_server.get_session', 'xrpc_server.refresh_session'],
        'lemmas': [],
        'finder': 'f_xrpc.py',
        'note': 'Every gated method is proved, for every request, configuration and stored state '
                'over MemoryStorage, to return only with the configured token and to fail '
                'without changing anything otherwise; flask and lexrpc are assumed contracts.',
    },
    'C18': {
        'functions': ['storage.MemoryStorage.deactivate_repo',
                      'storage.MemoryStorage.activate_repo',
                      'storage.MemoryStorage.tombstone_repo',
                      'storage.MemoryStorage.load_repo', 'storage.Storage.commit',
                      'server.load_repo', 'xrpc_sync.get_repo_status'],
        'lemmas': [],
        'finder': 'f_xrpc.py',
        'note': 'Status changes, refusal of commits and of requests for inactive repos, and '
                'getRepoStatus are proved for every state over MemoryStorage.',
    },
    'C19': {
        'functions': ['xrpc_sync.list_repos', 'storage.MemoryStorage.load_repos'],
        'lemmas': ['paging'],
        'finder': 'f_xrpc.py',
        'note': 'Every page is proved complete, ascending, described by the stored repos and '
                'within the limit, for every stored state over MemoryStorage, cursor and limit; '
                'a lemma composes pages.',
    },
    'C21': {
        'functions': ['xrpc_repo.import_repo'],
        'lemmas': [],
        'finder': 'f_xrpc.py',
        'note': 'import_repo proved for every archive, DID document and state of MemoryStorage; '
                'CAR reading, resolution and signature primitives are assumed contracts, archive '
                'blocks are assumed canonical DAG-CBOR, DID documents and commits well-formed.',
    },
    'C28': {
        'functions': ['xrpc_repo.get_record', 'repo.Repo.get_record'],
        'lemmas': [],
        'finder': 'f_xrpc.py',
        'note': 'Reads of one record are proved for every request and state over MemoryStorage, '
                'with the MST functions they use; list_records and get_contents are '
                'checked only by the bounded cross-check.',
    },
    'C26': {
        'functions': ['storage.MemoryStorage.write', 'storage.MemoryStorage.write_blocks',
                      'storage.MemoryStorage.read', 'storage.MemoryStorage.read_many',
                      'storage.MemoryStorage.has', 'storage.MemoryStorage.write_event',
                      'storage.Storage.commit', 'storage.Block.cid', 'storage.Block.encoded',
                      'storage.Block.decoded', 'storage.Block.__eq__'],
        'lemmas': [],
        'finder': 'f_storage.py',
        'note': 'Every function that stores blocks is proved to keep every stored block, its '
                'bytes and its number, for every state over MemoryStorage.',
    },
    'C11': {
        'functions': ['util.int_to_tid', 'util.tid_to_int', 'util.datetime_to_tid',
                      'util.tid_to_datetime', 'util.s32encode', 'util.s32decode'],
        'lemmas': TID_LEMMAS,
        'finder': 'f_tid.py',
        'note': 'All TID functions proved against their contracts for every input; datetime '
                'arithmetic and clock id choice are modelled.',
    },
    'C12': {
        'functions': ['util.next_tid'],
        'lemmas': TID_LEMMAS,
        'finder': 'f_tid.py',
        'note': 'next_tid proved strictly monotonic for every clock reading, sequentially; '
                'concurrent calls are not covered.',
    },
    'C13': {
        'functions': ['util.apply_low_s_mitigation', 'util.sign', 'util.verify_sig',
                      'util.service_jwt'],
        'lemmas': [],
        'finder': 'f_sign.py',
        'note': 'Signing, low-S mitigation, verification and service JWTs proved against their '
                'contracts; ECDSA, DER, DAG-CBOR and JWT libraries are assumed contracts.',
    },
    'C22': {
        'functions': ['did.encode_did_key', 'did.decode_did_key', 'did.plc_operation_to_did_doc',
                      'did.get_handle', 'did.get_signing_key'],
        'lemmas': [],
        'finder': 'f_did.py',
        'note': 'All functions proved for every key and document; multibase, multicodec and the '
                "key library's point encoding are assumed contracts.",
    },
    'C23': {
        'functions': ['did.create_plc', 'did.update_plc', 'did.write_plc',
                      'did.write_plc_operation', 'did.rollback_plc'],
        'lemmas': [],
        'finder': 'f_did.py',
        'note': 'All PLC functions proved for every audit log, handle, key and option; audit logs '
                'are assumed to be well-formed JSON lists of operations; HTTP, hashing and '
                'encoding libraries are assumed contracts.',
    },
    'C24': {
        'functions': ['memcache.Lease.__init__', 'memcache.Lease.acquire', 'memcache.Lease.release',
                      'memcache.Lease.__enter__', 'memcache.Lease.__exit__'],
        'lemmas': [],
        'finder': 'f_lease.py',
        'note': 'All Lease methods proved for every clock that never goes back, every memcache '
                'answer and every timing; the memcache client is an assumed contract.',
    },
    'C25': {
        'functions': ['util.at_uri', 'util.parse_at_uri'],
        'lemmas': [],
        'finder': 'f_sign.py',
        'note': 'at_uri and parse_at_uri proved inverse for every delimiter-free part; urlparse '
                'is an assumed contract.',
    },
    'C27': {
        'functions': ['did.resolve', 'did.resolve_plc', 'did.resolve_web', 'did.resolve_handle'],
        'lemmas': [],
        'finder': 'f_did.py',
        'note': 'All resolvers proved for every identifier and response; the @cached decorators '
                'are dropped by the extraction; DNS, HTTP and URL libraries are assumed contracts.',
    },
}

NOT_APPLICABLE = {
}
