#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below (run by hand after editing; check.py does not need it)."""
import json, os, subprocess
from props import PROPS
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, quant, why, files, mech, observe=None, note=''):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **({'observe_at': observe} if observe else {})), _note=note))
FX = ['protocol/src/fixed_codec/' + f for f in 'primitive.rs transaction.rs receipt.rs epoch.rs genesis.rs mod.rs'.split()]
PB = ['protocol/src/codec/' + f for f in 'primitive.rs transaction.rs receipt.rs epoch.rs mod.rs macro.rs'.split()]
EX = ['core/executor/src/lib.rs', 'core/executor/src/native_contract/account.rs', 'core/executor/src/native_contract/bank.rs', 'core/executor/src/adapter/contract.rs', 'core/executor/src/trie/mod.rs', 'core/executor/src/trie/trie_db.rs', 'core/executor/src/cycles.rs']

prop('C01', 'Fixed (hashed and stored) encoding round-trips every protocol value',
 'For every value of every type that has a fixed encoding (hashes, addresses, fees, assets, accounts, raw and signed transactions with every kind of action, receipts with every kind of result, proofs, validators, epoch headers, epochs, pills, epoch ids and genesis), encoding succeeds and decoding the encoding yields exactly the original value.',
 ['inputs'], 'every value of each type: every integer width, every field content, every list and map shape and every enum variant, within the sizes the check states',
 'The tests round-trip one random mock per type, never the Approve variants, and compare a handful of random integers, so a width-, variant- or list-shape-dependent slip stays invisible.',
 FX, [('ProtocolFixedCodec::encode_fixed / decode_fixed', 'protocol/src/fixed_codec')])
prop('C03', 'Decoding hostile fixed-encoded bytes fails cleanly',
 'Decoding arbitrary bytes as any fixed-encoded protocol value never panics: it returns an error or a value. A value it accepts can be encoded again, and that encoding decodes to the same value.',
 ['inputs'], 'arbitrary short byte strings; and every well-formed encoding with any one byte replaced by any value or cut short at any sampled length',
 'Tests only decode what they just encoded; no test feeds malformed bytes, though peers and disks deliver them.',
 FX, [('ProtocolFixedCodec::decode_fixed', 'protocol/src/fixed_codec')])
prop('C04', 'Wire (protobuf) encoding round-trips every protocol value',
 'For every value of every type that has a protobuf encoding (hashes, balances, addresses, fees, assets, raw and signed transactions, receipts, proofs, validators, epoch headers, epochs, pills, epoch ids), encoding succeeds and decoding the encoding yields exactly the original value, for every enum variant and every integer width.',
 ['inputs'], 'every value of each type within the stated sizes',
 'Tests round-trip one random mock per type; contract types, approvals and wide integers are not distinguished.',
 PB, [('ProtocolCodec::encode / decode', 'protocol/src/codec')])
prop('C05', 'Decoding hostile protobuf bytes fails cleanly',
 'Decoding arbitrary bytes as any protobuf-encoded protocol value never panics: it returns an error or a value. A value it accepts can be encoded again, and that encoding decodes to the same value.',
 ['inputs'], 'arbitrary short byte strings; and every well-formed encoding with any one byte replaced by any value or cut short at any sampled length',
 'No test decodes malformed protobuf, though every peer can send it.',
 PB, [('ProtocolCodec::decode', 'protocol/src/codec')])
prop('T01', 'Hashes and addresses accept exactly the well-formed bytes and text',
 'A 32-byte string is a hash, a 21-byte string starting with 0x10 a user address, one starting with 0x20 to 0x23 a contract address of type asset, app, library or native, and nothing else is accepted. Their text is lower-case hex and parses back to the same bytes with or without an 0x prefix; any other text is refused with an error, never a panic.',
 ['inputs'], 'all contents of byte strings of the listed lengths; texts with any one character replaced, cut short or too long',
 'Tests parse one or two constant strings.', ['protocol/src/types/primitive.rs'], [('from_bytes / from_hex / as_hex', 'protocol/src/types/primitive.rs')])
prop('T02', 'Addresses are derived from public keys, and from code and nonce, injectively',
 'A user address is 0x10 followed by the first 20 bytes of the hash of the public key, and a contract address is its type followed by the first 20 bytes of the hash of the code and the nonce (big-endian). So different public keys give different addresses, and the same code at different nonces gives different contract addresses (up to hash collisions).',
 ['inputs'], 'every public key of the listed lengths; every code of up to 2 bytes, every 64-bit nonce and every contract type',
 'Tests derive from one constant key.', ['protocol/src/types/primitive.rs'], [('UserAddress::from_pubkey_bytes, ContractAddress::from_code', 'protocol/src/types/primitive.rs')])

prop('E01', 'A transfer moves exactly its amount or changes no balance',
 'A transfer succeeds exactly when the asset is registered, the sender holds at least the amount and the cycles limit covers its cost (210 cycles); then the sender loses and the receiver gains exactly the amount, and its receipt names receiver, asset and the sender\'s balance before and after. Otherwise it gets a failure receipt and no balance changes. In either case no other account, asset or approval changes apart from the block\'s fees going to its coinbase.',
 ['inputs'], 'every amount, prior balance, cycles limit and choice of sender, receiver (including the sender itself and fresh accounts) and asset (including unregistered), balances of one byte and of widths up to 17 bytes',
 'The one executor test transfers one constant amount between two accounts and checks two balances.',
 EX, [('TransactionExecutor::exec, NativeAccountContract::transfer', 'core/executor/src')])
prop('E02', 'A block applies its transactions in order, and a failed one changes nothing',
 'Executing a block gives one receipt per transaction, in order, each carrying the transaction\'s hash, the block\'s id, the resulting state root and the fee charged. The state stored at the new root is exactly the effect of the succeeding transactions applied in order, each seeing its predecessors\' effects; a failing transaction leaves nothing but its sender\'s nonce. The executor\'s own answers agree with that stored state, and the state at the previous root stays readable and unchanged.',
 ['programs', 'inputs'], 'every block of up to the stated number of transfers and deployments among three users with arbitrary amounts, balances and sufficient or insufficient limits',
 'Tests execute one transaction per block and never a failing one.',
 EX, [('TransactionExecutor::exec: stash on success, revert_cache on failure, commit at the end', 'core/executor/src/lib.rs')])
prop('E03', 'Nonces count every transaction of a sender, and are kept across blocks',
 'Every executed transaction, successful or failed, raises its sender\'s stored nonce by exactly one, and no other account\'s nonce. The next block, executed from the resulting root by a new executor, continues from there.',
 ['histories', 'inputs'], 'any starting nonce, one block of several transactions by two senders, and two consecutive blocks',
 'No test reads a nonce back or executes a second block.', EX, [('inc_nonce', 'core/executor/src/native_contract/account.rs'), ('exec', 'core/executor/src/lib.rs')])
prop('E04', 'Fees equal cycles used times price and are credited to the coinbase',
 'Each receipt\'s fee is the cycles the transaction used times the block\'s cycles price, in the fee asset the transaction names, and a transaction that fails for lack of cycles or balance costs nothing. The fees a block reports are the sums of its receipts\' fees per asset, and exactly these amounts are credited to the block\'s coinbase, be it a user or a contract.',
 ['inputs', 'programs'], 'every price up to 2^32, one or two fee assets, coinbase being a sender, a receiver, a fresh account or a contract',
 'Tests use price 1 and never look at the coinbase\'s balance.', EX, [('exec: fees per asset', 'core/executor/src/lib.rs')])
prop('E05', 'Every transaction in a block gets a receipt, never a panic or a lost block',
 'Whatever kinds of actions a block holds (transfer, approve, deployment of any contract type, call) and whether or not its senders have accounts, executing it does not panic and does not fail the block. A transaction that is not supported gets a failure receipt and costs nothing while the rest of the block executes, and an empty block leaves the state root unchanged.',
 ['inputs', 'programs'], 'every kind of action, first or second in the block, senders with and without accounts, arbitrary small code and arguments',
 'Tests execute only supported transactions by known senders.', EX, [('TransactionExecutor::exec / dispatch', 'core/executor/src/lib.rs')])
prop('E06', 'Executing a block is deterministic across nodes',
 'Two nodes executing the same block from the same state obtain the same state root, the same receipts and the same fees, whatever the random seeds of their in-memory hash maps.',
 ['schedules', 'inputs'], 'two executors with independent hash-map seeds, blocks touching several accounts and fee assets',
 'A test runs one process with one seed and never compares two runs.', EX, [('ordered iteration when committing and crediting fees', 'core/executor/src')])
prop('E07', 'A deployment registers exactly one new asset, under an address of its own',
 'Deploying an asset contract succeeds exactly when the sender has an account, the cycles limit covers it (2100 cycles) and no asset of that contract exists yet; its contract address is derived from the code and the sender\'s nonce. Then exactly one asset is registered, under an id derived from chain and contract and managed by that contract, and its receipt names the contract. Otherwise nothing is registered, no deployment changes a balance apart from the fees paid to the coinbase, and an asset once registered never changes.',
 ['inputs', 'programs'], 'two deployments of arbitrary short code by one or two senders at several nonces with any cycles limit',
 'One test registers one constant asset.', EX, [('NativeBankContract::register, handle_deploy', 'core/executor/src')])
prop('E08', 'A crash while a block is written loses nothing that was committed',
 'If the disk fails for good at any read or write during the execution of a block, nothing panics and no transaction is reported as done that was not; if a write fails, execution reports an error instead of a result. After a restart the state before the block is intact, and executing the block again gives the state and root an undisturbed execution gives. A single failed read fails the block or the transaction that needed it, and changes nothing else.',
 ['crash_points'], 'failure at every database read and write of a block of transfers and a deployment',
 'No test injects a disk error.', ['core/executor/src/trie/mod.rs', 'core/executor/src/trie/trie_db.rs', 'core/executor/src/lib.rs', 'core/executor/src/adapter/contract.rs'], [('RocksTrieDB::insert_batch, commit', 'core/executor/src/trie')])
prop('E09', 'Contract state keeps succeeded writes and drops reverted ones',
 'In any sequence of writes, stashes, reverts and commits on a contract\'s state, a read always returns the latest write that was not reverted, and the root a commit returns is the root of exactly the stashed writes on top of the previous commit. A revert drops exactly the writes since the last stash or revert, and unstashed writes survive a commit only in memory.',
 ['programs', 'inputs'], 'every sequence of up to the stated number of operations on two keys with arbitrary one-byte values',
 'Tests run one fixed sequence.', ['core/executor/src/adapter/contract.rs'], [('GeneralContractStateAdapter: cache, stash, trie', 'core/executor/src/adapter/contract.rs')])
prop('E10', 'The world-state trie is a persistent map whose root identifies its contents',
 'A trie returns for every key the value last written; its root depends only on its contents, different contents have different roots, and every root ever committed can be opened after a restart with its contents, while an unknown root cannot. The database below it returns what was written, refuses batches whose numbers of keys and values differ, and in full (non-light) mode keeps nodes it is asked to remove.',
 ['programs', 'inputs'], 'every sequence of up to the stated number of writes and commits on keys sharing and not sharing prefixes, short and long values, then a restart',
 'Tests insert and read back one key.', ['core/executor/src/trie/mod.rs', 'core/executor/src/trie/trie_db.rs'], [('MPTTrie, RocksTrieDB', 'core/executor/src/trie')])
prop('E11', 'Genesis creates exactly the configured accounts and the system token',
 'Creating a well-formed genesis yields a root at which exactly the configured balances exist and the system token is registered with its configured id, name, symbol, supply and contract. A genesis with malformed text is refused with an error, without a panic.',
 ['configurations', 'inputs'], 'genesis files with zero to three accounts, balances up to 320 bits, any supply and several lengths of text, and any one character of an address, hash or number text replaced',
 'One test creates one constant genesis.', ['core/executor/src/lib.rs', 'protocol/src/types/genesis.rs'], [('TransactionExecutor::create_genesis', 'core/executor/src/lib.rs')])
prop('E12', 'Account and asset ledgers never overspend, misplace or duplicate value',
 'For user and contract accounts alike, an account\'s balance is always what was credited less what was spent; spending or transferring more than it holds, or beyond the cycles limit, is refused. Cycle accounting never exceeds the limit, accounts have the kind of their address and nonces grow by one, and an asset can be registered once only, under an id derived from chain and asset contract, after which its data never changes.',
 ['inputs', 'programs'], 'one (thorough: two) credits, debits or transfers of any amount between user and contract accounts, any cycles already used and any limit',
 'Tests exercise one credit and one registration each.', ['core/executor/src/native_contract/account.rs', 'core/executor/src/native_contract/bank.rs', 'core/executor/src/cycles.rs'], [('add_balance, sub_balance, transfer, register, consume_cycles', 'core/executor/src')])

prop('S01', 'Storage returns exactly what was stored, by every key it offers',
 'After any sequence of storing transactions, receipts, epochs and proofs, every one is returned unchanged under its hash or id, lookups of several hashes return those known in the order asked for, things never stored are reported as absent, and the latest epoch and proof are those stored last. Kinds of data never shadow each other, on disk and in memory alike. Storing and reading at the same time loses nothing, and what is announced as the latest epoch is found by its id and hash meanwhile.',
 ['histories', 'inputs', 'schedules'], 'every sequence of up to the stated number of storing operations; epoch ids over the full 64-bit range shape; two threads with the stated number of preemptions',
 'Tests store one or ten mocks of one kind into an empty store.', ['core/storage/src/lib.rs', 'core/storage/src/adapter/rocks.rs', 'core/storage/src/adapter/memory.rs'], [('ImplStorage, RocksAdapter, MemoryAdapter', 'core/storage/src')])
prop('S02', 'A crash during storing keeps what was reported as stored',
 'If the disk fails at any write, storing reports an error instead of success and does not panic. After a restart everything reported as stored is still there, a batch of transactions or receipts is there whole or not at all, and the latest epoch is one that is also found by its id and its hash. A single failed read or write is reported by the operation it fell in, never taken for an absent value, and changes nothing else.',
 ['crash_points', 'fault_sequences'], 'failure, for good or once, at every write of a sequence storing transactions, receipts, an epoch and a proof, and at every read of a lookup',
 'No test injects a disk error.', ['core/storage/src/lib.rs', 'core/storage/src/adapter/rocks.rs'], [('batch_modify in one write batch; latest epoch written last', 'core/storage/src')])
prop('S03', 'Storage adapters are maps with atomic, aligned batches',
 'In any sequence of inserts, removals and batches, a lookup gives the latest value of the key or nothing if it was removed, membership agrees with lookup, and a lookup of several keys is aligned with the keys. A batch with different numbers of keys and values is refused, and operations on one kind of data do not touch another. A disk error is an error, and an operation that reports one changed nothing.',
 ['programs', 'inputs', 'fault_sequences'], 'every sequence of up to the stated number of operations, on the disk and the in-memory adapter',
 'Tests insert and remove single keys.', ['core/storage/src/adapter/rocks.rs', 'core/storage/src/adapter/memory.rs'], [('StorageAdapter for RocksAdapter, MemoryAdapter', 'core/storage/src/adapter')])

NE = 'core/network/src/'
prop('N01', 'An endpoint names one handler and carries a call id exactly',
 'Text whose first part is a known scheme parses as an endpoint exactly when it has three or four parts and at most 120 characters; text that does not start with a scheme is refused. The endpoint keeps its text, two endpoints are equal exactly when their first three parts are, and equal ones hash alike. A call id added to an endpoint is read back as the same number, and an rpc endpoint whose last part is not a 64-bit number is refused. Parsing never panics.',
 ['inputs'], 'any ASCII rest of an endpoint up to the stated length, any character of a scheme replaced, ids around powers of two and at the 64-bit limit',
 'Tests parse a handful of constants.', [NE + 'endpoint.rs'], [('Endpoint, RpcEndpoint: FromStr, TryFrom, extend, root, Eq, Hash', NE + 'endpoint.rs')])
prop('N02', 'A response reaches exactly the call it answers, once',
 'Calls have distinct ids. A response completes the waiting call with its peer and id, with the content the peer sent, exactly once, in whatever order responses arrive; a response from another peer, to an unknown or answered call, or of another type completes no call. A call that cannot be sent fails and leaves nothing waiting. When two responses race, one is taken.',
 ['schedules', 'inputs', 'fault_sequences'], 'every order of inserts, responses and duplicates to the stated length, two threads, two peers, failing transport, arbitrary contents',
 'Tests insert and take one call, on one thread.', [NE + 'rpc_map.rs', NE + 'outbound/rpc.rs', NE + 'reactor/mod.rs'], [('RpcMap; NetworkRpc::call, response; Reactor::rpc_resp', NE)])
prop('N03', 'A message arrives as it was sent, or hostile bytes are dropped',
 'A gossip message goes out once, to whom it is addressed and with its priority, and arrives at the handler of its endpoint, and only there, unchanged and with its sender\'s session, compressed or not. Arbitrary bytes from a peer are handled at most once or dropped; they never panic, never complete a call unless they are its response, and leave the node handling later messages.',
 ['inputs', 'fault_sequences'], 'arbitrary contents, any byte (at the stated positions) of a package replaced, any truncation, short arbitrary packages',
 'Tests do not connect the sending to the receiving side and send no hostile bytes.', [NE + 'message/mod.rs', NE + 'outbound/gossip.rs', NE + 'reactor/router.rs', NE + 'reactor/mod.rs', NE + 'compression/snappy.rs'], [('NetworkGossip, MessageRouter, Reactor, Snappy, serde/serde_multi', NE)])
prop('N04', 'The peer manager reaches connected users, redials others, and never panics',
 'A message for users goes once to the sessions of those connected; users without a session are reported, and those known are dialled. A known peer without a session is dialled only while connections are free, and once at a time; if that fails it is tried again after 5^n seconds, and given up after six failures (unless it is a bootstrap peer), and an address merely heard of is tried six times. A connection that did not last three seconds counts as such a failure; a peer heard from starts afresh; failing to reach a connected peer at another address changes nothing. Known peers and addresses heard of together take no more than the free connections. A peer to be retried later is disconnected. Whatever peers announce, the manager keeps running, keeps its connections, and dials only addresses it was told.',
 ['histories', 'inputs', 'fault_sequences'], 'every history of the stated number of events (attach, detach, remove, retry, announce, dial failures) over two or three peers, any waiting time, malformed addresses',
 'Tests do not drive the peer manager at all.', [NE + 'peer_manager/mod.rs', NE + 'peer_manager/peer.rs'], [('PeerManager: process_event, poll; Inner; Peer back-off', NE + 'peer_manager')])
prop('N05', 'What happens to connections and protocols is reported as it is',
 'Each thing that happens to a connection reaches the peer manager once, in order and naming its peer, session and address: opened and closed sessions, addresses listened at, an address that timed out or was interrupted (to be tried later), one that cannot be reached otherwise, ourselves met at an address, a repeated connection with who dialled, a peer that speaks another protocol or breaks one (removed), an unstable session (retried later). A blocked session and a fault of our own are reported upwards too. Pings, identified and discovered addresses are reported likewise, a misbehaving peer is disconnected, and each message received is passed on once with its session. Neither a missing peer manager nor a missing listener brings the connections down.',
 ['histories', 'inputs', 'fault_sequences'], 'each kind of event and error with each direction, session and kind of failure; every sequence of the stated length',
 'Tests do not drive the connections at all.', [NE + 'connection/keeper.rs', NE + 'protocols/ping.rs', NE + 'protocols/transmitter.rs', NE + 'peer_manager/disc.rs', NE + 'peer_manager/ident.rs'] , [('ConnectionServiceKeeper; Ping, Identify, Discovery, Transmitter, CoreProtocol; IdentifyCallback, DiscoveryAddrManager', NE + 'connection')])
prop('N06', 'What is asked of the connections is done once, in order, or refused',
 'Each dial, disconnection and message asked of the connections is done exactly once, urgent ones on the urgent queue, messages of one urgency in the order asked, also while the connections are temporarily busy. A message sent directly is passed on once with its target, protocol and urgency, or refused as busy or shut down. A message for users is handed to the peer manager unchanged, and its sender is told exactly which users were missed, or that there is no peer manager. The connections end when closed.',
 ['histories', 'fault_sequences', 'schedules'], 'every sequence of requests of the stated length, the connections idle or busy for either urgency at each, the future polled or not in between',
 'Tests do not drive the connections at all.', [NE + 'connection/mod.rs', NE + 'connection/control.rs'], [('ConnectionService: process_event, poll; ConnectionServiceControl: send, users_send', NE + 'connection')])
prop('N07', 'A network service delivers gossip and calls to registered handlers',
 'A broadcast goes out once to all; a message for users goes once to each that is connected and to nobody else, and its sender is told if one is missed. Another service hands each message once to the handler of its endpoint, as it was sent and as its sender\'s, with its urgency kept. Calls arrive once, and each is answered with its peer\'s answer to it, in whatever order answers come, and not by another peer. Handlers are registered for gossip and calls only, responses as responses only, on well-formed endpoints. A service listens once, at the address given or the default one, tells peers that address, uses the configured key and frame limit, and keeps handling messages after trouble.',
 ['schedules', 'inputs', 'configurations', 'fault_sequences'], 'every combination of connected peers, addressed users, endpoints, urgencies, orders of answers; each way to listen; each kind of trouble',
 'Tests do not build a network service.', [NE + 'service.rs', NE + 'protocols/core.rs'], [('NetworkService: new, register_endpoint_handler, register_rpc_response, listen, poll; NetworkServiceHandle', NE + 'service.rs')])
prop('N08', 'Network settings are used as given, and malformed keys refused',
 'Every setting given is the one kept and passed to the peer manager and connections. A private key or bootstrap key that is not hexadecimal, or a private key of another length, is refused with an error, never a panic. A socket address becomes the multi-address of the same host and port, from which the host is read back, and an address without a host and a part more has none. A started service dials each of its bootstraps at its address. A heart beats once each interval, at that interval.',
 ['configurations', 'inputs'], 'any IPv4 or IPv6 host and port, any number of seconds or connections, each kind of malformed key, up to two bootstraps, each order of setters',
 'Tests do not read settings.', [NE + 'config.rs', NE + 'common.rs'], [('NetworkConfig; PeerManagerConfig, ConnectionConfig: From<&NetworkConfig>; socket_to_multi_addr, multi_addr_ip, HeartBeat', NE + 'config.rs')])
prop('N09', 'What is known of a peer follows the peer, not stale sessions or addresses',
 'A peer removed is forgotten with all its addresses, so that each of them, heard of again, is dialled as new; a bootstrap peer is never forgotten. What is said of a session that is over changes nothing about the session that followed. An address heard of that names another peer, or that no peer is known by, is dialled for itself; one of a known peer is not, and is added to that peer\'s addresses only while it is connected. After a repeated connection the address we dialled is kept for the peer, the address of a caller is not.',
 ['histories', 'inputs'], 'each way a session ends or a peer is removed, each kind of address and direction, peers connected or not, up to two bootstraps',
 'Tests do not drive the peer manager at all.', [NE + 'peer_manager/mod.rs'], [('PeerManager: identify_addr, cleanly_remove_peer, add_session_addr, close_peer_session; Inner: match_pid, remove_peer', NE + 'peer_manager/mod.rs')])
prop('N10', 'Known peers survive a restart, and a damaged record of them stops nothing',
 'A node that keeps its peers in a file knows, when it starts again, every peer it knew when it stopped and every address of it: it dials them all once (a bootstrap peer at its configured address, and if that fails at all known ones), takes an address of one of them as known, and reaches it once it connects; nobody counts as connected before. A node not told to keep them starts with its bootstrap peers only. A missing or cut file is refused with an error and changes nothing; a damaged one, or a disk that cannot be read or written, never stops the node from starting, connecting and stopping.',
 ['histories', 'crash_points', 'inputs'], 'each combination of two peers (met or not, by either side, identified, gone or connected, bootstrap or not), any time between; any cut of the file, any byte of an entry overwritten with any value, arbitrary short files',
 'Tests never save or load peers.', [NE + 'peer_manager/persist.rs', NE + 'peer_manager/mod.rs', NE + 'peer_manager/peer.rs', NE + 'service.rs'], [('PeerPersistence: save, load; PeerManager: load_peers, bootstrap, drop; Inner: package_peers, insert_peers; NetworkService::new', NE + 'peer_manager/persist.rs')])

prop('M01', 'A Merkle root commits to a list and its proofs lead to it',
 'The root of a list of hashes exists unless the list is empty, is the element of a list of one, and differs for different lists of the same length (up to hash collisions). Each element has a proof that combines from the element to the root and is as long as the tree is deep; positions past the end have none. Building a tree and asking for proofs never panic.',
 ['inputs'], 'every list of hashes to the stated length, any element replaced',
 'Tests check a few fixed lists.', ['common/merkle/src/lib.rs'], [('Merkle: from_hashes, get_root_hash, get_proof_by_input_index; merge', 'common/merkle/src/lib.rs')])

MP = ['core/mempool/src/' + f for f in 'lib.rs tx_cache.rs map.rs adapter/mod.rs adapter/message.rs'.split()]
prop('M02', 'The pool takes a transaction exactly when it is valid, new and there is room',
 'A transaction from a user enters the pool exactly when its hash is the digest of its contents, its signature is valid for its key, it is for this chain, its time has not run out and is not further ahead than the gap allows, it is neither in the pool nor committed, storage can be read and the pool is not full. One that is taken can be looked up, is passed on to peers once, in order and in batches of at most the size configured, at the latest when the interval ends; one that is refused is neither held nor passed on. A message that cannot be sent stops nothing.',
 ['inputs'], 'every latest epoch and gap (64 bits); every way one part of a transaction can be wrong, any replaced byte; every order of taking and passing on',
 'The tests insert freshly signed random transactions with fixed epoch and gap and a mocked adapter; the real adapter is not tested.', MP, [('HashMemPool::insert', 'core/mempool/src/lib.rs'), ('DefaultMemPoolAdapter: check_signature, check_transaction, check_storage_exist, broadcast_tx; IntervalTxsBroadcaster', 'core/mempool/src/adapter/mod.rs')])
prop('M03', 'Packaging takes what fits, in order, forgets what ran out and loses nothing',
 'Packaging gives the longest run of pooled transactions, in the order they were taken, whose cycles sum up to at most the limit; what follows and was not proposed before is proposed, up to the limit again. Transactions whose time ran out, or is further ahead than the gap allows, are forgotten; nothing else is. Flushed transactions are gone, may come again, and make room. Packaging never panics, for any cycles, limit, timeout, epoch and gap.',
 ['inputs', 'histories'], 'every cycles, limit, timeout, epoch and gap (64 bits) and every short sequence of taking, proposing, packaging and flushing',
 'Tests use equal small fees and a fixed timeout; sums that overflow and mixtures of run-out, proposed and oversized transactions do not occur.', MP, [('HashMemPool::package, flush; TxCache::package, flush', 'core/mempool/src/tx_cache.rs')])
prop('M04', 'Taking, packaging and flushing at once neither lose nor double transactions',
 'When transactions are taken, packaged and flushed by several threads at the same time, two equal transactions are taken once, a transaction is packaged at most once by one packaging, what is in the pool and not flushed is packaged in order, and afterwards the pool holds and packages exactly what it took and was not flushed.',
 ['schedules'], 'every schedule of two or three threads within the preemption bound',
 'Tests run operations concurrently on a thread pool and see one schedule each time.', MP, [('TxCache: insert, package, flush over a concurrent queue and map', 'core/mempool/src/tx_cache.rs'), ('Map buckets', 'core/mempool/src/map.rs')])
prop('M05', 'Transactions supplied by a peer are held only when genuine and asked for',
 'Fetching the transactions of a block asks, once, for exactly those that are not at hand, and succeeds only if afterwards the genuine transactions of the block (right contents, right signature) are at hand in its order; an honest answer suffices. Proposed transactions enter the pool when they could have been taken from a user. What is fetched for a block is not packaged again and is forgotten when the block is flushed. No answer of a peer makes this panic.',
 ['inputs', 'fault_sequences'], 'every kind of honest, partial, permuted, doubled, forged or malformed answer; any replaced signature byte',
 'Tests mock the adapter so that it always answers honestly.', MP, [('HashMemPool::ensure_order_txs, sync_propose_txs, get_full_txs', 'core/mempool/src/lib.rs'), ('DefaultMemPoolAdapter::pull_txs', 'core/mempool/src/adapter/mod.rs')])
prop('M06', 'Nodes hand each other transactions without loss, echo or partial answers',
 'Of the transactions a peer gossips the valid ones enter the pool, whatever the others are, and they are not gossiped again. A request for transactions is answered once, with all of them in the order asked for, or not at all when one is not there.',
 ['inputs', 'schedules'], 'every mixture of valid and invalid transactions, every order in which their tasks run, every request over known and unknown transactions',
 'No test covers the message handlers.', MP, [('NewTxsHandler, PullTxsHandler, MsgNewTxs, MsgPullTxs, MsgPushTxs', 'core/mempool/src/adapter/message.rs')])

KP = ['core/consensus/src/' + f for f in 'engine.rs consensus.rs adapter.rs message.rs fixed_types.rs util.rs'.split()]
prop('K01', 'A validator proposes and votes only for the next epoch of its own chain',
 'A proposal carries the number, previous hash, state root, order root, receipt root and proof that follow from the epochs committed so far, and exactly the packaged transactions; this is so after every commit and after the node was stopped and started again. A proposal of another node gets a vote exactly if it follows the chain, commits to its transactions, matches its hash, and all its transactions can be had. Committing an epoch stores it with its transactions, receipts and proof, takes its transactions out of the pool for good, announces it once and leads to the next; an epoch out of turn is neither proposed nor committed.',
 ['histories', 'inputs'], 'every sequence of blocks and restarts up to the bound, every changed proposal of the listed kinds', 'core/consensus has no tests; what a proposal must say depends on all the history before it.', KP, [('get_epoch, check_epoch, commit, update_status, check_link', KP[0]), ('resume', KP[5])])
prop('K02', 'A crash or a failing disk during a commit loses no epoch and no transaction',
 'Whichever write of a commit fails, the epoch is afterwards either committed as a whole, with the transactions, receipts and state it leads to, or not at all and its transactions are still in the pool; and the node starts again, can commit the same epoch (proposed by itself or by another) and comes to the same state.',
 ['crash_points', 'fault_sequences'], 'every write of a commit', 'No test stops a node in a commit.', KP, [('commit, update_status', KP[0]), ('save_epoch, save_receipts, save_signed_txs, save_proof', KP[2]), ('resume', KP[5])])
prop('K03', 'A node that fell behind comes to the same chain, whatever its peers answer',
 'After an announcement a node that is behind fetches the missing epochs and has the same epochs, transactions, receipts and next proposal as its honest peer; one that is not behind changes nothing. An answer that is missing, garbled, of the wrong kind, or has an epoch that does not follow the chain or transactions that are not those of the epoch as signed, stops the synchronization: nothing of it is stored as an epoch, and an honest peer can carry on from there. No announcement panics.',
 ['histories', 'inputs', 'fault_sequences'], 'every split into common and missed blocks, every lie of the listed kinds at every answer, every short announcement', 'No test covers synchronization.', KP, [('update_epoch', KP[1]), ('pull_epoch, pull_txs, check_pulled_txs', KP[2]), ('RpcHandler', KP[3])])
prop('K04', 'Each epoch is executed and stored once when commits and synchronization overlap',
 'However the steps of commits and synchronizations interleave, every epoch is executed once, on the state after the one before it, and stored once, in order; all of them end, and the next epoch can be committed.',
 ['schedules'], 'every interleaving of the steps', 'Schedules are not under the control of a test.', KP[:2], [('commit', KP[0]), ('update_epoch', KP[1])])
prop('K05', 'Consensus messages arrive as sent; malformed ones and bad signatures are refused',
 'A proposal, vote or certificate reaches the consensus of its receiver as it was sent, votes going to the relayer only; requests and answers of the synchronization survive their encodings; one that is cut, changed or made of junk is refused without a panic. A signature is accepted exactly if it is its signer\'s over that hash and then names the signer\'s address.',
 ['inputs'], 'every cut and every changed byte at the stated positions', 'No test decodes a malformed message.', [KP[2], KP[3], KP[4], KP[5]], [('MessageCodec', KP[4]), ('transmit', KP[2]), ('OverlordCrypto', KP[5])])

AP = ['core/api/src/lib.rs', 'core/api/src/adapter/mod.rs', 'core/api/src/schema/mod.rs', 'core/api/src/schema/epoch.rs']
prop('A01', 'Queries are answered with what the chain holds at the epoch asked for',
 'The service answers a query for an epoch with exactly the epoch stored under the id asked for (the latest without one): every number, hash and address, and every list whole and in order; an epoch that is not there is an error. A balance is what the account holds of the asset at the epoch asked for, and zero for an account or asset that is unknown. Malformed text is an error; no request brings the service down.',
 ['inputs'], 'every content of the epochs, balances of every width stated, every form of an id, and malformed text within the bounds', 'The service has no tests.', AP, [('Query', AP[0]), ('DefaultAPIAdapter::get_balance', AP[1]), ('Epoch::from', AP[3])])
prop('A02', 'A transaction handed in reaches the pool as it was given, or is refused',
 'A transfer or deployment handed to the service reaches the pool once, with every field as it was given, with or without 0x; one handed in with a private key gets the hash of its contents and a signature by that key. The answer is the hash. One the pool refuses, or with malformed text in any field, is answered with an error, and nothing of it reaches the pool.',
 ['inputs'], 'every content of each field in turn, and malformed text in each field within the bounds', 'The service has no tests.', AP, [('Mutation', AP[0]), ('cover_to_signed_tx', AP[0]), ('InputRawTransaction', 'core/api/src/schema/transaction.rs')])

NA = {}
exec(open(os.path.join(HERE, 'describe_more.py')).read()) if os.path.exists(os.path.join(HERE, 'describe_more.py')) else None
TECH = 'symbolic execution of the rustc LLVM bitcode with Z3 (bounded); counterexamples replayed natively'
def main():
    ids = [p['id'] for p in P]; assert len(set(ids)) == len(ids); assert set(ids) == set(PROPS) | set(NA), set(ids) ^ (set(PROPS) | set(NA))
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
    sha = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%H', '--grep=^verif:'], text=True).split()
    checks = []
    for p in P:
        if p['id'] in NA: continue
        d = PROPS[p['id']]; n = p['_note'] or d.get('bounds', '')
        checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s quick' % p['id'], thorough_cmd='python3 check.py %s thorough' % p['id'], technique=TECH, level='model_checking',
            level_note=('Holds for every value within the bounds (%s). ' % p['quantifier']['text']) + (n + ' ' if n else '') + 'Trusts rustc, the engine\'s LLVM semantics (sampled paths are re-run natively), Z3, and the stand-ins named in DESIGN.md.'))
    m = dict(version=1, setup_cmd='python3 check.py --setup', hooks=dict(guard='verif_hooks', enable='rustc --cfg verif_hooks (passed by check.py)', source_commits=sha), checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()])
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
if __name__ == '__main__': main()
