"""What is decided: per property, the harness entries to run, their bounds and the witnesses each must reach."""
def J(harness, entry, covers=(), **k): return dict(harness=harness, entry=entry, covers=list(covers), **k)
PROPS = {}
PROPS['C01'] = dict(jobs=[J('fixed', e, ['round trip']) for e in 'fx_hash fx_address fx_fee fx_asset fx_account_user fx_account_contract fx_raw fx_raw_approve fx_signed fx_receipt fx_receipt_approve fx_result fx_proof fx_validator fx_header fx_epoch fx_pill fx_epochid fx_genesis fx_bytes'.split()] + [J('fixed', 'fx_big', ['large', 'round trip'], procs=4)])

HOSTILE = ['one byte overwritten', 'cut short', 'arbitrary bytes', 'accepted', 'rejected']
PROPS['C03'] = dict(jobs=[J('fixed', e, HOSTILE, params=dict(len=4, cutstep=7), thorough=dict(len=6, cutstep=1), procs=2) for e in 'fd_hash fd_address fd_user fd_contract fd_fee fd_asset fd_account_user fd_account_contract fd_raw fd_signed fd_receipt fd_result fd_proof fd_validator fd_header fd_epoch fd_pill fd_epochid fd_genesis'.split()])
PROPS['C04'] = dict(jobs=[J('proto', e, ['round trip']) for e in 'px_hash px_balance px_address px_fee px_asset px_raw px_signed px_receipt px_proof px_validator px_header px_epoch px_pill px_epochid'.split()] + [J('proto', 'px_big', ['large', 'round trip'], procs=4)])
PROPS['C05'] = dict(jobs=[J('proto', e, HOSTILE, params=dict(len=4, cutstep=7), thorough=dict(len=6, cutstep=1), procs=2) for e in 'pd_hash pd_balance pd_user pd_contract pd_fee pd_asset pd_raw pd_signed pd_receipt pd_proof pd_validator pd_header pd_epoch pd_pill pd_epochid'.split()])
PROPS['T01'] = dict(jobs=[J('types', 'ty_hash_bytes', ['accepted', 'rejected']), J('types', 'ty_addr_bytes', ['accepted', 'rejected']), J('types', 'ty_hex_round', ['with 0x', 'without 0x'], procs=2), J('types', 'ty_hex_bad', ['accepted', 'rejected', 'one character', 'cut short', 'too long', 'affixed'], procs=2)])
PROPS['T02'] = dict(jobs=[J('types', 'ty_from_pubkey', ['derived', 'same key', 'different keys']), J('types', 'ty_from_code', ['derived', 'same nonce', 'other nonce'])])


TS = ['transfer succeeds', 'transfer fails']
PROPS['E01'] = dict(jobs=[J('exec', 'ex_transfer', TS, params=dict(stray=1), procs=3), J('exec', 'ex_transfer', TS, params=dict(wide=1), procs=3), J('exec', 'ex_transfer', TS, params=dict(wide=2), procs=3)])
PROPS['E02'] = dict(jobs=[J('exec', 'ex_block', TS + ['deployment succeeds', 'deployment fails'], params=dict(txs=2), thorough=dict(txs=3), procs=7), J('exec', 'ex_long', TS)])
PROPS['E03'] = dict(jobs=[J('exec', 'ex_nonce', ['nonces', 'several by one sender'], params=dict(txs=2), thorough=dict(txs=3), procs=4), J('exec', 'ex_blocks', TS, procs=4)])
PROPS['E04'] = dict(jobs=[J('exec', 'ex_fees', ['fees', 'two fee assets', 'one fee asset'], procs=6), J('exec', 'ex_fees_contract', ['fees'], procs=2), J('exec', 'ex_fees_many', ['two fee assets'], params=dict(txs=3), thorough=dict(txs=4), procs=4)])
PROPS['E05'] = dict(jobs=[J('exec', 'ex_total', ['unsupported'], procs=4), J('exec', 'ex_empty', ['empty'], procs=4)])
PROPS['E06'] = dict(jobs=[J('exec', 'ex_same', ['same'], procs=8)])
PROPS['E07'] = dict(jobs=[J('exec', 'ex_deploy', ['deployment succeeds', 'deployment fails', 'both', 'second refused'], procs=6), J('state', 'st_bank', ['registered', 'refused'], procs=2)])
PROPS['E08'] = dict(jobs=[J('exec', 'ex_crash', ['completed', 'crashed', 'failed once'], procs=4), J('exec', 'ex_unreadable', ['completed', 'unreadable'], procs=4), J('exec', 'ex_read_glitch', ['completed', 'unreadable', 'a transaction fails'], procs=4)])
PROPS['E11'] = dict(jobs=[J('exec', 'ex_genesis_wide', ['supply', 'texts', 'balances'], procs=4), J('exec', 'ex_genesis', ['genesis', 'empty genesis'], procs=4), J('exec', 'ex_genesis_bad', ['accepted', 'refused'], procs=4)])

PROPS['E09'] = dict(jobs=[J('state', 'st_adapter', ['stash', 'revert', 'commit'], params=dict(ops=5), thorough=dict(ops=7), procs=6), J('state', 'st_many', ['backwards', 'forwards'], procs=2)])
PROPS['E10'] = dict(jobs=[J('state', 'st_many', ['backwards', 'forwards'], procs=2), J('state', 'st_trie', ['trie', 'same root', 'different roots'], params=dict(inserts=2), thorough=dict(inserts=3), thorough_timeout=800, procs=4), J('state', 'st_db', ['batch', 'lopsided', 'restart', 'light', 'full'], params=dict(ops=3), thorough=dict(ops=5), procs=4)])
PROPS['E12'] = dict(jobs=[J('state', 'st_account', ['credit', 'debit', 'refused', 'transfer', 'transfer refused'], params=dict(ops=1), thorough=dict(ops=2), procs=4), J('state', 'st_account_kind', ['user', 'contract', 'credited'], procs=2), J('state', 'st_bank', ['registered', 'refused'], procs=2), J('state', 'st_cycles', ['within', 'over'])])

SG = ['transactions', 'receipts', 'epoch', 'proof']
PROPS['S01'] = dict(jobs=[J('storage', 'sg_rocks', SG, params=dict(ops=2), thorough=dict(ops=3), procs=4), J('storage', 'sg_memory', SG, params=dict(ops=2), thorough=dict(ops=3), procs=3), J('storage', 'sg_epoch_ids', ['epochs']), J('storage', 'sg_many', ['one by one', 'together'], procs=4), J('storage', 'sg_many_rocks', ['one by one', 'together'], procs=4), J('storage', 'sg_race', ['read while written', 'transactions', 'receipts', 'proof'], params=dict(preempts=1), thorough=dict(preempts=2), procs=4), J('storage', 'sg_race_rocks', ['read while written', 'transactions', 'receipts', 'proof'], params=dict(preempts=1), thorough=dict(preempts=2), procs=4)])
PROPS['S02'] = dict(jobs=[J('storage', 'sg_crash', ['completed', 'crashed', 'half way'], procs=6), J('storage', 'sg_glitch', ['write failed', 'read failed', 'read'], procs=4)])
PROPS['S03'] = dict(jobs=[J('storage', 'sg_adapter', ['remove', 'batch', 'lopsided', 'other category'], params=dict(ops=2), thorough=dict(ops=3), procs=6), J('storage', 'sg_adapter_glitch', ['failed', 'worked'], procs=2)])

PROPS['N01'] = dict(jobs=[J('net', 'nt_endpoint', ['endpoint', 'refused'], params=dict(len=4), thorough=dict(len=6), procs=2), J('net', 'nt_endpoint_parts', ['endpoint', 'refused']), J('net', 'nt_endpoint_text', ['refused', 'fits', 'too long']), J('net', 'nt_endpoint_eq', ['equal', 'different'], procs=2), J('net', 'nt_rpc_id', ['id'], procs=2), J('net', 'nt_rpc_bad', ['number', 'no number'], procs=2)])
PROPS['N02'] = dict(jobs=[J('net', 'nt_rpc_map', ['answered', 'other type', 'unknown'], params=dict(ops=3), thorough=dict(ops=4), procs=3), J('net', 'nt_rpc_race', ['raced']), J('net', 'nt_rpc_many', ['backwards', 'shuffled'], procs=2), J('net', 'nt_rpc', ['answered', 'both', 'ignored'], params=dict(answers=3), thorough=dict(answers=4), procs=4), J('net', 'nt_rpc_fail', ['failed', 'sent']), J('net', 'nt_rpc_number', ['id'], procs=2), J('net', 'nt_rpc_quick', ['answered'])])
PROPS['N03'] = dict(jobs=[J('net', 'nt_gossip', ['delivered', 'no handler'], procs=2), J('net', 'nt_gossip_snappy', ['delivered'], procs=2), J('net', 'nt_snappy', ['short', 'repeated', 'long'], procs=3), J('net', 'nt_snappy_bad', ['decompressed', 'refused'], params=dict(len=4), thorough=dict(len=6), procs=3), J('net', 'nt_hostile', ['one byte overwritten', 'cut short', 'arbitrary bytes', 'accepted', 'dropped'], params=dict(step=5, len=2), thorough=dict(step=1, len=5), thorough_timeout=700, fork_reads=True, procs=8)])
PROPS['N04'] = dict(jobs=[J('peers', 'pm_route', ['closed', 'removed by session', 'disconnected', 'sent', 'missed', 'dialled'], params=dict(ops=2), thorough=dict(ops=3), procs=4), J('peers', 'pm_retry', ['for ever', 'bootstrap', 'too early', 'in time', 'connected', 'given up'], params=dict(fails=6), procs=3), J('peers', 'pm_slots', ['connects', 'fails', 'comes in', 'dialled', 'filled'], params=dict(ops=3), thorough=dict(ops=4), thorough_timeout=800, procs=4), J('peers', 'pm_unknown', ['heard of', 'fails', 'unconnectable', 'connects', 'dialled'], params=dict(ops=3), thorough=dict(ops=4), procs=3), J('peers', 'pm_unknown_retry', ['given up']), J('peers', 'pm_short', ['short', 'lasted']), J('peers', 'pm_connected', ['left alone']), J('peers', 'pm_mixed', ['filled', 'room']), J('peers', 'pm_hostile', ['discovered', 'identified', 'repeated'], params=dict(wide=0), thorough=dict(wide=1), thorough_timeout=800, procs=4)])
NET = ['tentacle', 'tentacle_ping', 'tentacle_discovery', 'tentacle_identify']
HEAR = ['alive','not heard of','identified','misbehaves','asks where we listen','hears of others','message']
KEEP = ['opened','closed','listening','not listening','not connected','speaks otherwise','breaks the protocol','shaky','own fault','blocked']
PROPS['N09'] = dict(jobs=[J('peers', 'pm_forget', ['bootstrap', 'forgotten']), J('peers', 'pm_stale', ['stale']), J('peers', 'pm_match', ["another's", 'known']), J('peers', 'pm_repeated', ['dialler', 'caller'])])
PROPS['N05'] = dict(stubs=NET, jobs=[J('conn', 'cn_keeper', KEEP, params=dict(n=1), procs=2), J('conn', 'cn_keeper', KEEP, params=dict(n=2), thorough=dict(n=3), thorough_timeout=1500, procs=4), J('conn','cn_keeper_gone',['gone']), J('conn','cn_protocols',HEAR + ['manager gone'], params=dict(n=1), procs=4), J('conn','cn_protocols',HEAR, params=dict(n=2), thorough=dict(n=3), thorough_timeout=1500, procs=4)])
PROPS['N06'] = dict(stubs=NET, jobs=[J('conn', 'cn_events', ['was busy', 'never busy', 'closed'], params=dict(n=2), procs=4), J('conn', 'cn_events', ['was busy', 'never busy', 'closed'], params=dict(n=3), procs=4, thorough=dict(n=4), thorough_timeout=1500), J('conn', 'cn_send', ['sent', 'shut down', 'busy']), J('conn', 'cn_users_send', ['all reached', 'missed', 'no manager'])])

PROPS['N07'] = dict(stubs=NET, jobs=[J('conn', 'cn_gossip', ['broadcast', 'all reached', 'missed', 'handled'], procs=4), J('conn', 'cn_call', ['answered', 'from another'], procs=2), J('conn', 'cn_register', ['registered', 'refused']), J('conn', 'cn_listen', ['default', 'given', 'refused']), J('conn', 'cn_trouble', ['handled'], procs=4)])
PROPS['N08'] = dict(stubs=NET, jobs=[J('conn', 'cn_addr', ['v4', 'v6']), J('conn', 'cn_config', ['key refused', 'bootstraps refused', 'settings', 'dials'], procs=4), J('conn', 'cn_heart', ['beat'])])
PROPS['N10'] = dict(stubs=NET, jobs=[J('conn', 'cn_kept', ['dialled', 'nobody']), J('peers', 'pm_saved', ['gone', 'dialled', 'bootstrap', 'heard of'], procs=4), J('peers', 'pm_damaged', ['cut', 'overwritten', 'refused'], procs=4, timeout=300, thorough=dict(step=1, junk=16), thorough_timeout=2400), J('peers', 'pm_nodisk', ['bootstrap'])])
BOUNDS = dict(
 N05='1 or 2 (thorough 3) events of a connection', N06='2 or 3 (thorough 4) requests; each finds the connections idle or busy', N07='one message, or up to 2 calls, between two services; 2 kinds of trouble one after another', N08='any host, port and number of seconds; up to 2 bootstraps', N10='two peers, up to two addresses each, one restart (two after damage); one byte overwritten at every fourth (thorough every) position of an entry, or cut likewise, or up to 10 (thorough 16) arbitrary bytes', N09='one or two sessions of one or two peers, up to 2 bootstrap peers',
 C01='hashes, addresses and numbers arbitrary; byte strings and lists up to 2 elements; and, larger, byte strings of up to 5000 bytes, balances of 16 to 33 bytes, lists of up to 130, text beyond ASCII', C04='hashes, addresses and numbers arbitrary; byte strings and lists up to 2 elements; and, larger, byte strings of up to 5000 bytes, balances of 16 to 33 bytes, lists of up to 130, text beyond ASCII',
 C03='one byte overwritten at any position, or cut, or up to 4 (thorough 6) arbitrary bytes', C05='one byte overwritten at any position, or cut, or up to 4 (thorough 6) arbitrary bytes',
 E01='amounts and balances below 2^7, near 2^64 or near 2^500, nonces below 123', E02='2 (thorough 3) transactions, and one block of 14', E03='2 (thorough 3) transactions, two blocks', E04='prices below 2^32; up to 3 (thorough 4) transactions',
 E08='one failing write or read, at any position, of a block of two transactions; for good or (a read) once', E09='5 (thorough 7) operations on two keys', E10='2 (thorough 3) inserts; 3 (thorough 5) database operations',
 S01='2 (thorough 3) operations; two threads with 1 (thorough 2) preemptions', S02='one failing write or read at any position, for good or once', S03='2 (thorough 3) operations',
 N01='up to 4 (thorough 6) characters after the scheme', N02='3 (thorough 4) operations, two threads, two preemptions', N03='one byte overwritten at every fifth (thorough every) position, or cut, or up to 2 (thorough 5) arbitrary bytes', N04='2 or 3 (thorough 3 or 4) events, two or three peers')
for _k, _v in BOUNDS.items(): PROPS[_k].setdefault('bounds', _v)
PROPS['M01'] = dict(jobs=[J('merkle', 'mk_tree', ['empty', 'proofs', 'equal', 'different'], params=dict(max=5), thorough=dict(max=6), procs=6), J('merkle', 'mk_long', ['proofs'], procs=4)], bounds='lists of up to 5 (thorough 6) arbitrary hashes, and of up to 100 hashes one of which is arbitrary')
PROPS['M02'] = dict(jobs=[J('mempool', 'mp_insert', ['key', 'signature', 'hash', 'valid', 'refused', 'contents', 'run out', 'chain', 'taken', 'committed', 'disk', 'short signature'], params=dict(step=16), thorough=dict(step=1), procs=6), J('mempool', 'mp_broadcast', ['lost', 'batch', 'interval'], params=dict(max=3), thorough=dict(max=5), procs=2)], bounds='one transaction, or one after another, pool sizes 1 and 2; one byte of key, signature, hash or chain changed at every 16th (thorough every) position; batches of up to 3 (5) transactions')
PROPS['M03'] = dict(jobs=[J('mempool', 'mp_package', ['ordered', 'run out', 'does not fit', 'proposed before', 'proposed', 'more', 'flushed', 'again'], params=dict(max=2, rounds=2, bits=8), thorough=dict(max=3, rounds=2, bits=16), procs=5), J('mempool', 'mp_package', ['ordered', 'run out', 'does not fit', 'proposed before', 'proposed'], params=dict(max=2, rounds=1, bits=64), thorough=dict(max=3, rounds=1, bits=64), procs=3), J('mempool', 'mp_turnover', ['turned over', 'packaging'])], bounds='pools of up to 2 (thorough 3) transactions and one more between two packagings with 8-bit (16-bit) numbers; one packaging with any 64-bit numbers; 10 transactions of turnover')
PROPS['M04'] = dict(jobs=[J('mempool', 'mp_race', ['taken twice', 'taken and packaged', 'flushed and packaged', 'taken and flushed', 'all three'], params=dict(preempts=1), thorough=dict(preempts=2), procs=8)], bounds='2 or 3 threads with up to 1 (thorough 2) preemptions at any memory access of shared data')
PROPS['M05'] = dict(jobs=[J('mempool', 'mp_ensure', ['honest', 'at hand', 'refused', 'other contents', 'other signature', 'garbage', 'no answer'], params=dict(step=16), thorough=dict(step=1), procs=3), J('mempool', 'mp_ensure_honest', ['all known', 'fetched']), J('mempool', 'mp_propose', ['entered', 'committed', 'failed'], params=dict(step=16), thorough=dict(step=1), procs=3)], bounds='blocks of 2 or 3 transactions, 12 kinds of answer; one signature byte changed at every 16th (thorough every) position')
PROPS['M06'] = dict(jobs=[J('mempool', 'mp_gossiped', ['taken', 'refused']), J('mempool', 'mp_pulled', ['answered', 'not there'])], bounds='up to 3 transactions')
_K = dict(stubs=['serde_facade'])
PROPS['K01'] = dict(_K, jobs=[J('consensus', 'co_chain', ['started again', 'transactions', 'out of turn'], params=dict(blocks=2), thorough=dict(blocks=3), procs=4), J('consensus', 'co_vote', ['refused', 'honest'], procs=4)], bounds='two (thorough three) blocks of up to two transactions, a restart possible before each; 11 kinds of change to a proposal of another node')
PROPS['K02'] = dict(_K, jobs=[J('consensus', 'co_crash', ['failed', 'survived', 'committed later', 'by others'], procs=3)], bounds='a block of two transactions on a chain of zero or one blocks; the disk fails at any of the first 10 writes')
PROPS['K03'] = dict(_K, jobs=[J('consensus', 'co_sync', ['caught up', 'other proposes', 'started again'], params=dict(together=1, alone=2, kinds=2), thorough=dict(together=2, alone=3, kinds=2), procs=8), J('consensus', 'co_hostile', ['wrong epoch', 'wrong transactions', 'garbage', 'part', 'recovered'], params=dict(other=2), thorough=dict(other=4), procs=8), J('consensus', 'co_announce', ['nothing to do', 'refused'])], bounds='up to 1 (thorough 2) common blocks, then up to 2 (thorough 3) missed ones; 15 kinds of lie in any of the first 6 answers; announcements of up to 10 bytes')
PROPS['K04'] = dict(_K, jobs=[J('consensus', 'co_race', ['committed', 'synchronized'], procs=4)], bounds='two or three overlapping commits and synchronizations over 3 epochs, any order of their steps (calls of the adapter)')
PROPS['K05'] = dict(_K, jobs=[J('consensus', 'co_messages', ['cut', 'received'], procs=6), J('consensus', 'co_codec', ['request', 'epochs', 'transactions', 'list'], procs=4), J('consensus', 'co_crypto', ['valid', 'changed', 'length', 'text', 'sign'])], bounds='messages over boundary values, cut at every fourth of the first 24 bytes; requests and answers of up to 2 hashes or transactions, with one arbitrary byte, cut, or junk, at every 8th position; signatures with one arbitrary byte at any position, or of any length below 100')
PROPS['A01'] = dict(jobs=[J('api', 'ap_epoch', ['nothing', 'latest', 'unknown', 'epoch'], procs=4), J('api', 'ap_balance', ['none', 'latest', 'given epoch'], procs=4), J('api', 'ap_malformed_query', ['epoch', 'address', 'asset'], procs=2)], bounds='numbers above 2^63, one byte of each hash arbitrary, lists of up to 2; balances of up to 40 bytes; 2 characters of malformed text')
PROPS['A02'] = dict(jobs=[J('api', 'ap_submit', ['refused', 'signed here', 'signed before', 'deploy', 'transfer'], procs=6), J('api', 'ap_malformed', ['readable', 'refused'], params=dict(chars=2), thorough=dict(chars=3), thorough_timeout=2400, procs=6)], bounds='one byte of one field arbitrary at a time; amounts of up to 33 bytes; 2 (thorough 3) characters of malformed text')
