prop('V01', 'Executing a transaction in one shard neither creates nor destroys tokens',
 'Applying any transaction whose sender and recipient are in the same shard changes the sum of all balances of every token by exactly minus the part of the gas fee that the local fee rate does not hand to the miner. The sender pays exactly the value sent (if execution succeeded) plus gas used times gas price, and nobody else pays anything. No balance ever becomes negative.',
 ['inputs', 'programs'], 'all balances, values, gas limits, gas prices, token choices and recipient kinds (plain account, contracts that succeed, revert, fail, forward value, create, self-destruct), including insufficient funds',
 'tests sample a few amounts; conservation is an arithmetic identity over 256-bit amounts, gas and fee-rate rounding on every success and failure path',
 ['core/state_processor.go', 'core/state_transition.go', 'core/vm/evm.go', 'core/state/statedb.go', 'core/state/state_object.go'],
 [('gas purchase, refund and miner credit', 'core/state_transition.go TransitionDb/refundGas; core/state_processor.go ApplyTransaction'), ('value transfer', 'core/vm/evm.go Call/Create, core/evm.go Transfer'), ('native gas token conversion', 'core/vm/native_token.go, core/state_transition.go')])
prop('V02', 'A cross-shard transfer delivers exactly what the source shard took',
 'What a cross-shard transaction removes from the sender in the source shard equals what its deposit record carries (value and prepaid gas) plus the fee kept by the source shard. Applying the deposit in the destination shard credits exactly the value to the recipient (or leaves it with the sender\'s account there if execution fails) and refunds, pays out or burns exactly the prepaid gas.',
 ['inputs', 'histories'], 'all amounts, gas limits, gas prices, refund rates, timestamps around activation points, recipients that are plain accounts, succeeding and failing contracts, or contract creations',
 'the two halves run in different shards at different times, so conservation is a relation between two executions that no single-run test compares for all amounts',
 ['core/state_processor.go', 'core/state_transition.go', 'core/types/cross_shard_transaction.go'],
 [('source side', 'core/state_transition.go handleCrossShardTx/AddCrossShardTxDeposit'), ('destination side', 'core/state_processor.go ApplyCrossShardDeposit')])
prop('V03', 'Every cross-shard deposit is executed exactly once and in order',
 'The deposits destined for a shard are executed in the order fixed by the root chain (root block, then minor block within it, then position), each exactly once: the position recorded in a block lets the next block resume exactly after the last executed deposit, for every way the per-block gas limit cuts the stream. A block never stops early while gas and deposits remain, and never runs past the root block it references.',
 ['inputs', 'histories', 'configurations'], 'all sequences of root blocks, minor blocks and deposit lists up to the bound, all per-block gas limits, every block boundary, neighbours and non-neighbours, root-chain coinbase deposits',
 'the resume position is carried across blocks; an off-by-one shows only at a particular gas cut and deposit layout',
 ['core/xshard_tx_cursor.go', 'core/minorblockchain_addon.go', 'core/types/minorblock.go'],
 [('cursor', 'core/xshard_tx_cursor.go getNextTx'), ('execution with gas limit', 'core/minorblockchain_addon.go RunCrossShardTxWithCursor')])
prop('V04', 'A signed transaction executes at most once, only as signed, only by its owner',
 'A transaction is attributed to an account only if that account\'s key signed exactly its contents for this network; altering any signed field or the signature never leaves the sender unchanged. A transaction executes only when its nonce equals the account\'s, consumes that nonce whether it succeeds or fails, and can never execute a second time. Admission refuses transactions for another network, chain or shard.',
 ['inputs', 'histories'], 'all transaction contents, signatures, recovery ids, networks, shard keys, signing-scheme versions, account nonces, success and failure',
 'replay or malleability holes appear for particular field values (a specific recovery id, network or shard key), not for the ones a test signs',
 ['core/types/transaction_signing.go', 'core/types/transaction.go', 'core/state_processor.go', 'core/minorblockchain_addon.go', 'core/state_transition.go'],
 [('sender recovery', 'core/types/transaction_signing.go'), ('admission', 'core/minorblockchain_addon.go validateTx, core/state_processor.go ValidateTransaction'), ('nonce', 'core/state_transition.go')])
prop('V05', 'Transactions and blocks keep to their gas limits, and gas is charged as stated',
 'A transaction needs its intrinsic gas (base, creation, payload by byte, crossing shards), pays what it used and never more than its limit, gets back for cleared storage at most half of what it used, and one that runs out pays all of its gas and changes nothing else. In a block, deposits run until the cross-shard share is used up, what is left of that share is not available to the transactions of the block, and a transaction is included only if all of its gas fits into what is left; so no block uses more than its limit.',
 ['inputs'], 'all gas limits of transactions, blocks and cross-shard shares within the bounds; payload bytes; numbers of deposits and transactions; storage writes of every kind',
 'the limits meet at boundary values and in orders (deposits first, then transactions of different sizes) that tests with huge limits never reach',
 ['core/state_transition.go', 'core/state_processor.go', 'core/minorblockchain_addon.go', 'core/gaspool.go', 'core/state/statedb.go'],
 [('intrinsic gas', 'core/state_transition.go IntrinsicGas'), ('refund and charge', 'core/state_transition.go refundGas, chargeFee'), ('block limits', 'core/state_processor.go Process, core/minorblockchain_addon.go runCrossShardTxWithCursor, addTransactionToBlock')])
prop('V08', 'Every wire and storage message decodes to exactly what was encoded',
 'Encoding any well-formed block, header, transaction, receipt, log, deposit, peer command or cluster request and decoding it gives back an equal value and consumes the whole encoding; encoding again gives the same bytes. Decoding arbitrary bytes never crashes and never reads past the end, and whatever it accepts survives re-encoding.',
 ['inputs'], 'all contents of every message type within the listed shapes; arbitrary short byte strings',
 'encoders walk types by reflection and tags; a wrong width or a dropped field shows only for particular values or list lengths',
 ['serialize/serializer.go', 'serialize/deserializer.go', 'serialize/bytebuffer.go', 'core/types/minorblock.go', 'core/types/rootblock.go', 'core/types/transaction.go', 'core/types/receipt.go', 'core/types/cross_shard_transaction.go', 'core/types/token.go', 'cluster/rpc/grpc_types.go', 'p2p/p2p_commands.go', 'p2p/decode.go'],
 [('reflection codec', 'serialize/'), ('custom codecs', 'core/types/*.Serialize/Deserialize'), ('message frames', 'p2p/decode.go')])
prop('V09', 'Identifiers commit to every field they identify',
 'Two transactions, headers, metadata records or ordered lists with the same identifier (hash, seal hash, list root) agree in every field and in length and order. The seal hash leaves out exactly the fields filled in by mining, a block\'s reported hash is always that of its current header, and a finalized header commits to its metadata and body.',
 ['inputs'], 'all pairs of values differing in any field within the listed shapes; lists of different lengths',
 'a field left out of a hash is invisible to tests that compare hashes of equal values',
 ['core/types/derive_sha.go', 'core/types/minorblock.go', 'core/types/rootblock.go', 'core/types/transaction.go', 'core/types/utils.go'],
 [('hash and seal hash', 'core/types/utils.go serHash; minorblock.go, rootblock.go'), ('list root', 'core/types/derive_sha.go CalculateMerkleRoot')])
prop('V10', 'Token names and token ids correspond one to one',
 'Every token name of the allowed alphabet and length maps to an id that maps back to the same name, and every id up to the maximum maps to a name that maps back to the same id; ids above the maximum are refused.',
 ['inputs'], 'all 64-bit ids and all names of length 1 to 12', 'the mapping is a mixed-radix bijection over 2^62 ids; an off-by-one collides two tokens only at carries',
 ['common/token_codec.go'], [('codec', 'common/token_codec.go TokenIDEncode, TokenIdDecode')])
prop('V06', 'A reverted or failed operation leaves no trace in the state',
 'Reverting to a snapshot restores every balance of every token, nonce, code, storage slot, log, refund and account existence, and the state then commits to the same root as if the reverted operations had never run. A contract call takes full effect or none: wherever it stops (revert, invalid instruction, out of gas at any point) everything done inside it is undone, and a failed transaction costs its sender only gas and a nonce.',
 ['inputs', 'histories', 'fault points'], 'all sequences of state operations up to the bound with all amounts, nested snapshots, accounts of every kind (contract, plain, absent, holders of 16 and 17 tokens), every gas amount and so every out-of-gas point',
 'undo code is written per operation; a missing undo shows only for one combination of operations, account kind and stopping point',
 ['core/state/journal.go', 'core/state/state_object.go', 'core/state/statedb.go', 'core/types/token.go', 'core/vm/evm.go', 'core/state_transition.go'],
 [('journal', 'core/state/journal.go'), ('snapshots', 'core/state/statedb.go Snapshot/RevertToSnapshot'), ('call frames', 'core/vm/evm.go Call/CallCode/create')])
prop('V07', 'Committed state reads back exactly; copies of a state are independent',
 'After a state is committed and written to disk, reloading it gives exactly the balances of every token, nonces, code, storage and shard keys it had, with destroyed and empty accounts gone and nothing else lost, also for holders of more than 16 tokens. Committing an unchanged state gives the same root. A copy of a state shows the same contents, and nothing done to the copy, committing included, is ever visible in the original.',
 ['inputs', 'histories', 'crash points'], 'all sequences of state operations up to the bound with all amounts, with and without per-transaction finalisation, reload from the key-value store alone',
 'a node that was never flushed, or data shared between copies, goes unnoticed while the in-memory cache is warm',
 ['core/state/statedb.go', 'core/state/state_object.go', 'core/state/database.go', 'core/types/token.go'],
 [('commit', 'core/state/statedb.go Commit/Finalise'), ('copy', 'core/state/statedb.go Copy, state_object.go deepCopy, core/types/token.go CopyWithDB'), ('token trie', 'core/types/token.go Commit')])
prop('V11', 'Every address and transaction belongs to exactly one shard',
 'For every network layout, each address belongs to exactly one of the configured shards, the one its key selects, and moving an address or transaction to a shard puts it there. Invalid layouts and sizes are refused. Neighbourhood is symmetric and matches its definition, the text and byte forms of an address read back to the same address, and a transaction counts as in-shard exactly when both of its keys select the same shard.',
 ['inputs', 'configurations'], 'all 32-bit shard keys, all chain counts and shard sizes within the bounds, all pairs of shards',
 'routing is bit masking over 2^32 keys and every layout; a mask that is off by one sends only some keys to the wrong shard or to none',
 ['account/address.go', 'account/branch.go', 'account/neighbor.go', 'cluster/config/config.go', 'core/types/transaction.go'],
 [('address to shard', 'account/address.go, account/branch.go'), ('layout', 'cluster/config/config.go GetFullShardIdByFullShardKey, SetAndValidate'), ('neighbours', 'account/neighbor.go'), ('transaction routing', 'core/types/transaction.go')])
prop('V12', 'Difficulty follows its adjustment rule exactly for every interval',
 'The difficulty demanded of the next block is the parent difficulty raised or lowered by the configured fraction according to the time since the parent, never lowered by more than the cap, and never below the minimum. It depends only on the parent and the time, and computing it changes neither.',
 ['inputs', 'configurations'], 'all parent difficulties, intervals, cut-offs, factors and minimum difficulties, both uncle modes',
 'rounding, the cap and the floor interact at boundary intervals that tests hit only by chance',
 ['consensus/difficulty.go'], [('adjustment', 'consensus/difficulty.go CalculateDifficulty')])
prop('V13', 'A header is accepted only if linked, timely, with the difficulty its work meets',
 'A header is accepted only if its parent is known, its height is one more, its time is later and not too far in the future, its extra data is within limits, its difficulty is the demanded one and its nonce meets exactly the difficulty the chain demands for it. Work handed to a remote miner is the current block\'s, a submitted result is accepted only for it, and whatever a miner finds verifies.',
 ['inputs', 'histories'], 'all header fields, parents, clock values, nonces and difficulties; all submitted results; work requests and results in any order',
 'acceptance is a conjunction of comparisons; a dropped or loosened one admits headers that no test submits',
 ['consensus/consensus.go', 'consensus/remote.go', 'consensus/doublesha256/consensus.go', 'core/types/rootblock.go', 'core/types/minorblock.go'],
 [('header rules', 'consensus/consensus.go VerifyHeader'), ('seal', 'consensus/doublesha256 verifySeal, hashAlgo'), ('remote mining', 'consensus/remote.go, consensus.go SubmitWork/GetWork')])
prop('V14', 'Stake lowers difficulty only while it covers the recent blocks of the miner',
 'A miner gets the reduced difficulty exactly when staking is active at that time and height and the blocks it mined in the window, this one included, do not exceed what its stake allows; otherwise the full difficulty applies. The count covers exactly the blocks of the window on the chain being extended, whatever was asked before, and the stake locked for each address is its count times the per-block requirement.',
 ['inputs', 'histories', 'configurations'], 'all difficulties, stakes, requirements, dividers, times and activation points; all assignments of miners to blocks; queries in any order, on forks',
 'the count comes from a cache filled by earlier queries; a wrong window end shows only for particular query orders',
 ['consensus/posw/posw.go', 'cluster/config/posw_config.go'], [('adjustment', 'consensus/posw/posw.go PoSWDiffAdjust'), ('window count', 'consensus/posw/posw.go BuildSenderDisallowMap, countCoinbaseBlocks')])
prop('V15', 'Block rewards follow the decay schedule exactly, whatever was asked before',
 'The reward of a minor block is the configured reward decayed once per epoch and cut by the local fee rate; that of a root block is the decayed root reward plus the tax on what each confirmed minor block earned, per token; the stake asked per block decays the same way. Each is rounded down, depends only on the block asked about, and is never changed by earlier questions or by what callers do with earlier answers.',
 ['inputs', 'histories', 'configurations'], 'all heights in each epoch, rewards, rates and per-token amounts within the bounds, pairs of questions in any order',
 'answers come from a cache of mutable big integers; a shared or wrongly keyed entry shows only for a particular sequence of questions',
 ['core/rootblockchain.go', 'core/minorblockchain_addon.go', 'cluster/config/config.go'],
 [('root reward', 'core/rootblockchain.go CalculateRootBlockCoinBase'), ('minor reward', 'core/minorblockchain_addon.go getCoinbaseAmount, decayByHeightAndTime'), ('stake', 'core/minorblockchain_addon.go')])
prop('V16', 'A shard accepts a block only if every claim in it is what execution gives',
 'A shard refuses a block, and stays where it was, if any one claim differs from what executing the block on its parent gives: state root, receipt root, bloom, gas used, cross-shard gas used, cursor position, reward, transaction list root, gas limits, versions, branch, height, time, difficulty, the root block it builds on. The honest block is accepted.',
 ['inputs'], 'every field of header and metadata, numeric ones changed to every other value, hashes in one bit; transactions dropped, repeated, swapped or replaced; every known parent and root block',
 'validation is a long list of comparisons in several functions; a missing one accepts only blocks that no honest test node makes',
 ['core/minorblock_validator.go', 'core/minorblockchain.go', 'core/minorblockchain_addon.go', 'core/state_processor.go'],
 [('before execution', 'core/minorblock_validator.go ValidateBlock'), ('after execution', 'core/minorblock_validator.go ValidateState'), ('processing', 'core/minorblockchain.go insertChain, core/state_processor.go Process')])
prop('V17', 'A root block confirms only valid minor blocks that continue what is confirmed',
 'The root chain accepts a root block exactly if the minor blocks it names are known to be valid, continue per shard what that chain confirmed before without gap or repetition, are grouped in shard order, are no more than allowed and at least as many as required, are not later than the root block, and built on root blocks of the same chain; and its total difficulty, list root, reward and extra data are right. No list of headers brings the node down.',
 ['inputs', 'histories'], 'all lists of headers up to the bound drawn from a forked tree of minor blocks (gaps, forks, unknown shards, wrong root blocks), on every block of a forked root chain, all rewards, times and difficulties',
 'which lists are valid depends on the fork being extended; the mistakes are in combinations that tests, which build on the head, do not form',
 ['core/rootblock_validator.go', 'core/rootblockchain.go', 'core/common.go'],
 [('validation', 'core/rootblock_validator.go ValidateBlock'), ('latest confirmed headers', 'core/rootblockchain.go'), ('ancestry', 'core/common.go isSameChain')])
prop('V18', 'A node follows the heaviest chain, and all of its answers are about that chain',
 'The root chain a node follows is always the heaviest it has seen (a shorter chain wins a tie, otherwise the first). A shard follows the heaviest root chain, on it the blocks that root chain confirmed, and above those the longest chain (a later root block wins a tie). After every insertion and reorganisation the head, the head on disk, the height index up to the head, the state, transaction lookups and receipts all belong to that one chain.',
 ['inputs', 'histories'], 'all insertion orders and tree shapes of root and shard blocks up to the bounds, all root difficulties, the same or different transactions on both sides of a fork',
 'what a reorganisation must move is spread over indexes and caches; a missed one shows only after a particular fork shape and insertion order',
 ['core/rootblockchain.go', 'core/minorblockchain.go', 'core/minorblockchain_addon.go', 'core/common.go', 'core/rawdb/accessors_indexes.go'],
 [('root fork choice', 'core/rootblockchain.go WriteBlockWithState, reorg'), ('shard fork choice', 'core/minorblockchain_addon.go updateTip, AddRootBlock'), ('indexes', 'core/minorblockchain.go reorg, GetHashByHeight, GetReceiptsByHash; putTxIndexFromBlock')])
prop('V19', 'A block a shard assembles is one it accepts, whatever is waiting in its pool',
 'Whatever transactions and deposits are waiting, the block a shard assembles for its miner is accepted by the shard itself, pays the miner exactly the reward it states, delivers the waiting deposits, takes nothing from a transaction that is left out of it, and what it leaves out never prevents a later block from being assembled.',
 ['inputs', 'histories'], 'all combinations of three waiting transactions of the listed kinds, prices, miners and tokens; all deposit values within the bounds; two blocks in a row',
 'assembling and checking a block are two separate code paths; they differ only for particular mixes of transactions that void one another or do not fit together',
 ['core/minorblockchain_addon.go', 'core/tx_pool.go', 'core/state_processor.go', 'core/types/transaction.go'],
 [('assembly', 'core/minorblockchain_addon.go CreateBlockToMine, addTransactionToBlock, checkTxBeforeApply'), ('checking', 'core/state_processor.go Process')])
prop('V20', 'The transaction pool holds exactly what can still be executed',
 'The pool takes a transaction exactly if it is valid on the current head, the sender can pay for it in each token, and it does not underprice (by less than ten percent) a pooled one with the same sender and nonce; each transaction of a batch gets its own answer. Executable are exactly the transactions consecutive from the account nonce, the others wait. A transaction leaves only when replaced, when its nonce is used, or when its sender cannot pay for it any more; when the chain moves to another fork, those of the abandoned blocks that are still valid return.',
 ['inputs', 'histories'], 'all prices, values and balances within the bounds, all orders of nonces and tokens up to the bounds, all new heads and forks of the listed shapes',
 'the pool keeps the same transactions in several structures with cached limits; they drift apart only for particular balances and orders of nonces',
 ['core/tx_pool.go', 'core/tx_list.go', 'core/tx_noncer.go'],
 [('admission', 'core/tx_pool.go validateTx, add, addTxs; core/tx_list.go Add'), ('new heads', 'core/tx_pool.go reset, promoteExecutables, demoteUnexecutables; core/tx_list.go Filter, Forward, Cap')])
prop('V21', 'Contracts move, mint and query native tokens only as they are entitled to',
 'A contract that moves a native token moves exactly the amount, from itself to the recipient, or nothing; never more than it has, never a token id above the maximum, never to a contract that does not ask which token it received, and the token of the surrounding call stays what it was. Only the auction contract on chain 0 creates tokens, never the default token. A balance or token query answers exactly. System contracts are deployed once, with their own code, where and from when they are meant to be. Inside a static call none of this changes anything, and no input ends the process.',
 ['inputs'], 'all amounts, balances, indexes and gas within the bounds; all ways to call the operations (CALL, CALLCODE, DELEGATECALL, STATICCALL, nested in a static call or delegated); token ids in and beyond range',
 'the operations are reached from arbitrary contract code with arbitrary words; what goes wrong needs an unusual word, kind of call or nesting',
 ['core/vm/contracts.go', 'core/vm/evm.go', 'core/vm/instructions.go'],
 [('operations', 'core/vm/contracts.go transferMnt, mintMNT, balanceMNT, currentMntID, deploySystemContract'), ('token check', 'core/vm/evm.go checkTokenIDQueried, inStaticCall; core/vm/instructions.go ModifyTokenIDQueried')])

prop('V22', 'Synchronising with any peer finds the last common block and never crashes',
 'A node that synchronises a root or shard chain with a truthful peer starts from exactly the last block both have, however far back within the staleness limit, does nothing if it is further back, and ends with the peer\'s chain added block by block in order. Whatever a peer answers, the run ends without a crash; only blocks whose headers are linked to a block the node has and that carry valid work are asked for and added.',
 ['inputs', 'histories'], 'all positions of the last common block on chains up to the bounds (several header lists with gaps), all announced heights and difficulties, all answers of the listed headers, linked or not, with valid work or not',
 'the search for the last common block is a multi-way bisection with unsigned heights over lists a peer chooses; its mistakes are at particular heights or for particular answers',
 ['cluster/sync/root_task.go', 'cluster/sync/minor_task.go', 'cluster/sync/task.go'],
 [('search', 'cluster/sync/root_task.go, minor_task.go findAncestor, downloadBlockHeaderListAndCheck'), ('run', 'cluster/sync/task.go Run, validateHeaderList')])
prop('V23', 'The history of an account lists every transaction once, newest first',
 'Paging through the transactions of an account, or of the whole shard, from any position, with any page size and token filter, lists every transaction and delivered deposit on the chain that concerns it exactly once, newest first, each with its amounts, parties, block and time (and, for a transaction, its outcome); after a reorganisation what was abandoned is gone and what replaced it is listed.',
 ['inputs', 'histories'], 'all page sizes, all positions to continue from, all root rewards in the bounds; all chains, forks and kinds of transactions of the listed shapes',
 'the history is an index beside the chain, written and removed block by block and read by key ranges; what goes wrong shows at the edge of a page or after a particular fork',
 ['core/minorblockchain_addon.go', 'core/minorblockchain.go', 'qkcdb/leveldb.go', 'qkcdb/rocksdb.go'],
 [('writing and removing', 'core/minorblockchain_addon.go putTxIndexFromBlock, removeTxIndexFromBlock, updateTxHistoryIndex'), ('reading', 'core/minorblockchain_addon.go getTransactionDetails, GetTransactionByAddress, GetAllTx')])
prop('V24', 'A log query answers exactly the logs on the chain that match it',
 'A query for logs by range of blocks, contracts and positional topics returns every log of a transaction or deposit on the chain that matches and no other, in order, with its data, block, transaction and position; logs of reverted calls and of abandoned blocks are not among them, and a range that reaches beyond the chain is an error.',
 ['inputs', 'histories'], 'all ranges of heights, contents of logs and queries within the bounds, on chains with failed transactions, deposits that log and abandoned blocks',
 'a log skipped because of a bloom filter, a reorganisation or a comparison at the edge of a range is simply missing from an answer',
 ['core/filter.go', 'core/minorblockchain.go', 'core/state/statedb.go', 'core/types/bloom9.go', 'core/types/log.go', 'core/types/receipt.go'],
 [('filter', 'core/filter.go Logs, blockLogs, checkMatches, FilterLogs, bloomFilter'), ('recording', 'core/state/statedb.go AddLog, Prepare; core/vm/instructions.go makeLog; core/types/log.go storage form')])
prop('V25', 'Calls, gas estimates and price suggestions answer what the chain would do',
 'A call answers exactly what the contract returns on the block it names, with that block\'s state, number and time, or fails if the call does; balances, nonces, code and storage likewise. A gas estimate is the least limit with which the transaction succeeds, also for one that arrives from another shard; there is none only if it fails with the limit it came with. A suggested price is the configured percentile of the latest prices in that token. None of this changes the chain, and no request ends the process.',
 ['inputs', 'histories'], 'all values, prices and heights within the bounds, callers with and without money, contracts that store, clear, revert, nest or are created, both gas tokens',
 'the estimate is a search over repeated executions of a changing request; what goes wrong needs a particular sender, token, price or origin',
 ['core/minorblockchain_addon.go', 'core/state/statedb.go', 'core/state_processor.go'],
 [('calls', 'core/minorblockchain_addon.go ExecuteTx, getEvmStateByHash'), ('estimates', 'core/minorblockchain_addon.go EstimateGas'), ('price', 'core/minorblockchain_addon.go GasPrice')])
prop('V26', 'Every machine instruction computes what the EVM specification says',
 'Arithmetic, comparison, bit, shift, memory, stack, calldata, code and jump instructions of a contract give, for every operand, exactly the word or memory the EVM specification defines, and cost the gas it defines; a jump lands only on a jump destination that is no data of a push. Too few or too many stack items, an undefined instruction or too little gas end the call with an error, never the process.',
 ['inputs'], 'all 256-bit operands for comparison, bit and shift instructions; all operands of arithmetic; all offsets and lengths within the bounds and at their extremes; every opcode byte; every jump target',
 'the words of a contract are arbitrary and the special cases (sign, zero divisor, offsets near 2^64, shifts beyond the width) are rare in tests',
 ['core/vm/instructions.go', 'core/vm/interpreter.go', 'core/vm/jump_table.go', 'core/vm/gas_table.go', 'core/vm/memory.go', 'core/vm/stack.go', 'core/vm/analysis.go'],
 [('instructions', 'core/vm/instructions.go opAdd .. opSAR, opMload, opJump, opPush'), ('dispatch', 'core/vm/interpreter.go Run; core/vm/jump_table.go; core/vm/analysis.go'), ('gas of memory', 'core/vm/gas_table.go memoryGasCost')])
prop('V27', 'Calls between contracts, creations, logs and storage behave as the EVM specifies',
 'A called contract sees the caller, the value and the storage that its kind of call gives it; a static call, and all that runs inside it, has no effect. What a call answers reaches the memory it was to go to and can be copied, never beyond its end. Gas: every call, creation, write, clear, hash and log costs exactly what is specified, a called contract gets never more than all but a 64th, what is unused returns, a clear is refunded. A created contract is at its specified address with its code and value or leaves nothing but a used nonce. Calls nest 1024 deep.',
 ['inputs'], 'all pairs of kinds of calls with all 256-bit values; all gas up to 2^22 and gas arguments in the listed ranges; all forbidden operations, direct and nested; all listed sizes and offsets of answers; all storage words in the listed ranges',
 'contracts rely on the exact rules when they call contracts they do not know; a mistake shows only for a particular kind of call, nesting, amount of gas or failure',
 ['core/vm/evm.go', 'core/vm/instructions.go', 'core/vm/interpreter.go', 'core/vm/gas_table.go', 'core/vm/gas.go', 'core/vm/contract.go', 'core/vm/memory.go'],
 [('calls', 'core/vm/evm.go Call, CallCode, DelegateCall, StaticCall; core/vm/contract.go AsDelegate; core/vm/instructions.go opCall ..'), ('creation', 'core/vm/evm.go create, Create2; core/vm/instructions.go opCreate'), ('protection', 'core/vm/interpreter.go enforceRestrictions, Run'), ('gas', 'core/vm/gas_table.go gasCall .. gasSStore, makeGasLog; core/vm/gas.go callGas')])
prop('V28', 'A peer that asks for headers or blocks is told the truth',
 'A peer that asks for headers by height or by hash, towards the tip or towards genesis, every so many, gets the headers of the node\'s current chain at exactly the heights it asked for, in order and up to its limit, and nothing for a height or hash that is not on it; asked for what leads to a block, it gets the headers down to genesis one by one, also on a fork; asked for blocks, it gets exactly those it named. A request that is out of bounds is refused, and none ends the process.',
 ['inputs', 'histories'], 'all heights of 256 bits, all skips, limits, directions, types and hashes, on chains that replaced a fork',
 'requests come from anyone; every node catches up with the network by the answers, and a wrong one has the peer that gave it dropped, or sends the asker astray',
 ['cluster/master/handle.go', 'cluster/slave/slave_grpc.go', 'cluster/slave/api_backend.go', 'p2p/p2p_commands.go'],
 [('root chain', 'cluster/master/handle.go HandleGetRootBlockHeaderListRequest, HandleGetRootBlockHeaderListWithSkipRequest, HandleGetRootBlockListRequest'), ('shards', 'cluster/slave/slave_grpc.go GetMinorBlockList, GetMinorBlockHeaderList, GetMinorBlockHeaderListWithSkip; cluster/slave/api_backend.go')])
