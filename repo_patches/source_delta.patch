From 9d4fe874cb5b56a9e9ecf3e0d3d9447d6fcb048d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:55 +0000
Subject: [PATCH 01/27] fix: refuse a negative recovery id after the chain id
 is taken out of V

For version 2 transactions V minus 2*chainID+8 can be negative; the magnitude was
then used, so a second V yielded the same sender and the transaction was malleable.
---
 core/types/transaction_signing.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/types/transaction_signing.go b/core/types/transaction_signing.go
index db7266d..870ce12 100644
--- a/core/types/transaction_signing.go
+++ b/core/types/transaction_signing.go
@@ -140,7 +140,7 @@ func (s EIP155Signer) Hash(tx *EvmTransaction) common.Hash {
 }
 
 func recoverPlain(sighash common.Hash, R, S, Vb *big.Int, homestead bool) (account.Recipient, error) {
-	if Vb.BitLen() > 8 {
+	if Vb.Sign() < 0 || Vb.BitLen() > 8 {
 		return account.Recipient{}, ErrInvalidSig
 	}
 	// QuarkChain use NetworkId to store the chain Id instead of added to V,
-- 
2.43.0


From 1bbf5b3a333edcf00ec7ef83633454f96a8a469f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:00 +0000
Subject: [PATCH 02/27] fix: keep the token trie of an account when a balance
 change is reverted

Undoing a balance change, a self-destruct or an account creation rebuilt the
account's balances from the in-memory map alone. Holders of more than 16 tokens
lost every token kept in the trie, and an account that then grew past 16 tokens
crashed the node (trie opened without a database).
---
 core/state/journal.go      | 15 +++++----------
 core/state/state_object.go |  4 ++--
 core/state/statedb.go      |  4 ++--
 3 files changed, 9 insertions(+), 14 deletions(-)

diff --git a/core/state/journal.go b/core/state/journal.go
index ba3461a..eb3b81b 100644
--- a/core/state/journal.go
+++ b/core/state/journal.go
@@ -17,8 +17,7 @@
 package state
 
 import (
-	"math/big"
-
+	"github.com/QuarkChain/goquarkchain/core/types"
 	"github.com/ethereum/go-ethereum/common"
 )
 
@@ -95,13 +94,13 @@ type (
 	suicideChange struct {
 		account     *common.Address
 		prev        bool // whether account had already suicided
-		prevbalance map[uint64]*big.Int
+		prevbalance *types.TokenBalances
 	}
 
 	// Changes to individual accounts.
 	balanceChange struct {
 		account *common.Address
-		prev    map[uint64]*big.Int
+		prev    *types.TokenBalances
 	}
 	nonceChange struct {
 		account *common.Address
@@ -154,7 +153,7 @@ func (ch suicideChange) revert(s *StateDB) {
 	obj := s.getStateObject(*ch.account)
 	if obj != nil {
 		obj.suicided = ch.prev
-		obj.setBalances(ch.prevbalance)
+		obj.data.TokenBalances = ch.prevbalance
 	}
 }
 
@@ -172,11 +171,7 @@ func (ch touchChange) dirtied() *common.Address {
 }
 
 func (ch balanceChange) revert(s *StateDB) {
-	prev := make(map[uint64]*big.Int)
-	for k, v := range ch.prev {
-		prev[k] = v
-	}
-	s.getStateObject(*ch.account).setBalances(prev)
+	s.getStateObject(*ch.account).data.TokenBalances = ch.prev
 }
 
 func (ch balanceChange) dirtied() *common.Address {
diff --git a/core/state/state_object.go b/core/state/state_object.go
index c58f99c..437e7b3 100644
--- a/core/state/state_object.go
+++ b/core/state/state_object.go
@@ -321,7 +321,7 @@ func (c *stateObject) SubBalance(amount *big.Int, tokenID uint64) {
 func (self *stateObject) SetBalance(amount *big.Int, tokenID uint64) {
 	self.db.journal.append(balanceChange{
 		account: &self.address,
-		prev:    self.data.TokenBalances.GetBalanceMap(),
+		prev:    self.data.TokenBalances.CopyWithDB(),
 	})
 	self.setTokenBalance(amount, tokenID)
 }
@@ -329,7 +329,7 @@ func (self *stateObject) SetBalance(amount *big.Int, tokenID uint64) {
 func (self *stateObject) SetBalances(balances map[uint64]*big.Int) {
 	self.db.journal.append(balanceChange{
 		account: &self.address,
-		prev:    self.data.TokenBalances.GetBalanceMap(),
+		prev:    self.data.TokenBalances.CopyWithDB(),
 	})
 	self.setBalances(balances)
 }
diff --git a/core/state/statedb.go b/core/state/statedb.go
index 9215734..a8a4364 100644
--- a/core/state/statedb.go
+++ b/core/state/statedb.go
@@ -403,7 +403,7 @@ func (s *StateDB) Suicide(addr common.Address) bool {
 	s.journal.append(suicideChange{
 		account:     &addr,
 		prev:        stateObject.suicided,
-		prevbalance: stateObject.data.TokenBalances.GetBalanceMap(),
+		prevbalance: stateObject.data.TokenBalances.CopyWithDB(),
 	})
 	stateObject.markSuicided()
 	stateObject.data.TokenBalances, _ = types.NewTokenBalances([]byte{}, s.db.TrieDB())
@@ -532,7 +532,7 @@ func (s *StateDB) createObject(addr common.Address) (newobj, prev *stateObject)
 func (s *StateDB) CreateAccount(addr common.Address) {
 	new, prev := s.createObject(addr)
 	if prev != nil {
-		new.setBalances(prev.data.TokenBalances.GetBalanceMap())
+		new.data.TokenBalances = prev.data.TokenBalances.CopyWithDB()
 	}
 }
 
-- 
2.43.0


From 06d088617273b5bc98df8a9d64674d693c8cf23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:32 +0000
Subject: [PATCH 03/27] fix: give a copied account its own token trie

CopyWithDB shared the token trie with the original. Committing a copy of a state
(as mining, eth_call and the transaction pool do) changed the token balances of
holders of more than 16 tokens in the state it was copied from.
---
 core/types/token.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/types/token.go b/core/types/token.go
index 7d98ce9..3a45e9e 100644
--- a/core/types/token.go
+++ b/core/types/token.go
@@ -212,7 +212,10 @@ func (t *TokenBalances) IsBlank() bool {
 func (t *TokenBalances) CopyWithDB() *TokenBalances {
 	data := t.Copy()
 	data.db = t.db
-	data.tokenTrie = t.tokenTrie
+	if t.tokenTrie != nil {
+		// Commit updates the trie in place, a copy needs its own
+		data.tokenTrie = t.tokenTrie.Copy()
+	}
 	return data
 }
 
-- 
2.43.0


From 1178e94c5e312159d56d61679505eef9239672d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:32 +0000
Subject: [PATCH 04/27] fix: write token tries to disk together with the state
 that refers to them

The nodes of a token trie were never referenced from the state trie, so
committing a state root to disk left them behind: after a restart every holder of
more than 16 tokens was an account that could not be loaded.
---
 core/state/statedb.go | 3 +++
 core/types/token.go   | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/core/state/statedb.go b/core/state/statedb.go
index a8a4364..29900c8 100644
--- a/core/state/statedb.go
+++ b/core/state/statedb.go
@@ -727,6 +727,9 @@ func (s *StateDB) Commit(deleteEmptyObjects bool) (root common.Hash, err error)
 		if account.Root != emptyState {
 			s.db.TrieDB().Reference(account.Root, parent)
 		}
+		if tokenRoot := account.TokenBalances.TrieRoot(); tokenRoot != (common.Hash{}) {
+			s.db.TrieDB().Reference(tokenRoot, parent)
+		}
 		code := common.BytesToHash(account.CodeHash)
 		if code != emptyCode {
 			s.db.TrieDB().Reference(code, parent)
diff --git a/core/types/token.go b/core/types/token.go
index 3a45e9e..b9fb016 100644
--- a/core/types/token.go
+++ b/core/types/token.go
@@ -219,6 +219,15 @@ func (t *TokenBalances) CopyWithDB() *TokenBalances {
 	return data
 }
 
+// TrieRoot returns the root of the token trie, or the zero hash if the balances
+// are not kept in a trie.
+func (t *TokenBalances) TrieRoot() common.Hash {
+	if t.tokenTrie == nil {
+		return common.Hash{}
+	}
+	return t.tokenTrie.Hash()
+}
+
 func (t *TokenBalances) Copy() *TokenBalances {
 	balancesCopy := make(map[uint64]*big.Int)
 	for k, v := range t.balances {
-- 
2.43.0


From 12737c717ffd5d0c7200d59d5a35f51f0033e4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:40 +0000
Subject: [PATCH 05/27] fix: list the balances an account keeps in its token
 trie

---
 core/state/statedb.go |  2 +-
 core/types/token.go   | 20 ++++++++++++++++++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/core/state/statedb.go b/core/state/statedb.go
index 29900c8..5b67325 100644
--- a/core/state/statedb.go
+++ b/core/state/statedb.go
@@ -237,7 +237,7 @@ func (s *StateDB) GetBalance(addr common.Address, tokenID uint64) *big.Int {
 func (s *StateDB) GetBalances(addr common.Address) *types.TokenBalances {
 	stateObject := s.GetOrNewStateObject(addr)
 	if stateObject != nil {
-		return stateObject.data.TokenBalances.Copy()
+		return types.NewTokenBalancesWithMap(stateObject.data.TokenBalances.GetBalanceMap())
 	}
 	return types.NewEmptyTokenBalances()
 }
diff --git a/core/types/token.go b/core/types/token.go
index b9fb016..1a93483 100644
--- a/core/types/token.go
+++ b/core/types/token.go
@@ -187,8 +187,24 @@ func (t *TokenBalances) GetTokenBalance(tokenID uint64) *big.Int {
 }
 
 func (t *TokenBalances) GetBalanceMap() map[uint64]*big.Int {
-	data := t.Copy()
-	return data.balances
+	balances := t.Copy().balances
+	if t.tokenTrie == nil {
+		return balances
+	}
+	// the map only caches what was read or changed, the rest is in the trie
+	it := trie.NewIterator(t.tokenTrie.NodeIterator(nil))
+	for it.Next() {
+		tokenID := new(big.Int).SetBytes(t.tokenTrie.GetKey(it.Key)).Uint64()
+		if _, ok := balances[tokenID]; ok {
+			continue
+		}
+		balance := new(big.Int)
+		if err := rlp.DecodeBytes(it.Value, balance); err != nil {
+			panic(err)
+		}
+		balances[tokenID] = balance
+	}
+	return balances
 }
 
 func (t *TokenBalances) Len() int {
-- 
2.43.0


From 34bc8c67bde725fa31b11cfe49c7af0081808383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:42 +0000
Subject: [PATCH 06/27] fix: drop heights above the head when the root chain
 reorganises to a shorter chain

A heavier but shorter chain left the old chain's entries in the height index
above the new head, so GetBlockByNumber kept returning orphaned blocks.
---
 core/rootblockchain.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/rootblockchain.go b/core/rootblockchain.go
index 0492f8c..bdc302c 100644
--- a/core/rootblockchain.go
+++ b/core/rootblockchain.go
@@ -869,6 +869,12 @@ func (bc *RootBlockChain) reorg(oldBlock, newBlock types.IBlock) error {
 	for _, item := range diff {
 		rawdb.DeleteBlockContentLookupEntry(batch, item.Hash())
 	}
+	// The new chain may be shorter: drop the heights of the old chain above its head
+	for _, block := range oldChain {
+		if block.NumberU64() > bc.CurrentBlock().NumberU64() {
+			rawdb.DeleteCanonicalHash(batch, rawdb.ChainTypeRoot, block.NumberU64())
+		}
+	}
 	batch.Write()
 
 	if len(oldChain) > 0 {
-- 
2.43.0


From e8575f2d593326ff1fe7e98ee0c387e91fc0bd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:20 +0000
Subject: [PATCH 07/27] fix: answer queries at a height from the block of that
 height

GetHashByHeight looked up the hash of the requested height and then returned
the head's, so getCode, getStorageAt and the account data of an old height were
those of the head, and header requests by hash failed unless it was the head's.
---
 core/minorblockchain.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/minorblockchain.go b/core/minorblockchain.go
index 8e1e66f..d9fd586 100644
--- a/core/minorblockchain.go
+++ b/core/minorblockchain.go
@@ -599,6 +599,7 @@ func (m *MinorBlockChain) GetHashByHeight(height *uint64) (common.Hash, error) {
 		if bytes.Equal(common.Hash{}.Bytes(), hash.Bytes()) {
 			return hash, fmt.Errorf("shard %v do no have this  height  %v", m.branch.Value, *height)
 		}
+		return hash, nil
 	}
 	return m.CurrentBlock().Hash(), nil
 }
-- 
2.43.0


From 1e44aafaad9593175093da3ed8b29d796488f2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:06 +0000
Subject: [PATCH 08/27] fix: do not cache that a block has no receipts before
 they are written

A block that causes a reorganisation has its logs collected before its receipts
are written. The empty answer stayed in the receipt cache, so the receipts and
logs of that block could not be queried.
---
 core/minorblockchain.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/minorblockchain.go b/core/minorblockchain.go
index d9fd586..3a61d66 100644
--- a/core/minorblockchain.go
+++ b/core/minorblockchain.go
@@ -614,6 +614,9 @@ func (m *MinorBlockChain) GetReceiptsByHash(hash common.Hash) types.Receipts {
 		return nil
 	}
 	receipts := rawdb.ReadReceipts(m.db, hash)
+	if receipts == nil {
+		return nil
+	}
 	m.receiptsCache.Add(hash, receipts)
 	return receipts
 }
-- 
2.43.0


From 0b9d5c4bcb8c5f670f73591aae49ec50c0009704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:05 +0000
Subject: [PATCH 09/27] fix: a block higher than the tip of a chain is not on
 it, rather than a reason to exit

---
 core/common.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/core/common.go b/core/common.go
index 00cf3c4..0069db0 100644
--- a/core/common.go
+++ b/core/common.go
@@ -1,8 +1,6 @@
 package core
 
 import (
-	"runtime/debug"
-
 	"github.com/QuarkChain/goquarkchain/core/types"
 	"github.com/ethereum/go-ethereum/common"
 	"github.com/ethereum/go-ethereum/log"
@@ -14,8 +12,8 @@ var (
 
 func isSameChain(getParentHash func(common.Hash) common.Hash, longerChainHeader, shorterChainHeader types.IBlock) bool {
 	if longerChainHeader.NumberU64() < shorterChainHeader.NumberU64() {
-		debug.PrintStack()
-		log.Crit("wrong parameter order", "long.Number", longerChainHeader.NumberU64(), "long.Hash", longerChainHeader.Hash().String(), "short.Number", shorterChainHeader.NumberU64(), "short.hash", shorterChainHeader.Hash().String())
+		// a chain does not contain a block higher than its tip
+		return false
 	}
 	if shorterChainHeader.NumberU64() == longerChainHeader.NumberU64() {
 		return shorterChainHeader.Hash() == longerChainHeader.Hash()
-- 
2.43.0


From dcc836d615548d900c6b5193f84a050a888bc538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:05 +0000
Subject: [PATCH 10/27] fix: move to the confirmed minor block when the tip was
 rolled back below it

---
 core/minorblockchain_addon.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index 3dbad5d..22ef661 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -1089,7 +1089,8 @@ func (m *MinorBlockChain) AddRootBlock(rBlock *types.RootBlock) (bool, error) {
 	origHeaderTip := m.CurrentBlock()
 	if shardHeader != nil {
 		origBlock := m.GetBlockByNumber(shardHeader.Number)
-		if qkcCommon.IsNil(origBlock) || origBlock.Hash() != shardHeader.Hash() {
+		// the index may still hold the block from before the tip was rolled back below it
+		if qkcCommon.IsNil(origBlock) || origBlock.Hash() != shardHeader.Hash() || origHeaderTip.NumberU64() < shardHeader.Number {
 			//# TODO: shardHeader might not be the tip of the longest chain
 			//# need to switch to the tip of the longest chain
 			newTip := m.GetMinorBlock(shardHeader.Hash())
-- 
2.43.0


From 7a7b7b016d7a40093b5e910efe612716c396692b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:11 +0000
Subject: [PATCH 11/27] fix: undo what a transaction did when it is left out of
 the block being assembled

---
 core/minorblockchain_addon.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index 22ef661..517f92f 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -840,7 +840,13 @@ func (m *MinorBlockChain) addTransactionToBlock(block *types.MinorBlock, evmStat
 
 		}
 		stateT.Prepare(tx.Hash(), block.Hash(), txIndex)
+		snapshot, gasLeft := stateT.Snapshot(), *gp
 		_, receipt, _, err := ApplyTransaction(m.ChainConfig(), m, gp, stateT, block.IHeader().(*types.MinorBlockHeader), tx, usedGas, *m.GetVMConfig())
+		if err != nil {
+			// the transaction does not go into the block, so neither may what it did
+			stateT.RevertToSnapshot(snapshot)
+			*gp = gasLeft
+		}
 		switch err {
 		case ErrGasLimitReached:
 			txs.Pop()
-- 
2.43.0


From 1613e5562d8c09013563e22dd445c3848d166f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:29 +0000
Subject: [PATCH 12/27] fix: keep the unused cross-shard gas share away from
 in-shard transactions when a block is checked

---
 core/state_processor.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/core/state_processor.go b/core/state_processor.go
index 15d4cb7..1bf008d 100755
--- a/core/state_processor.go
+++ b/core/state_processor.go
@@ -63,7 +63,6 @@ func NewStateProcessor(config *params.ChainConfig, bc *MinorBlockChain, engine c
 func (p *StateProcessor) Process(block *types.MinorBlock, statedb *state.StateDB, cfg vm.Config) (types.Receipts, []*types.Log, uint64, error) {
 	statedb.SetQuarkChainConfig(p.bc.clusterConfig.Quarkchain)
 	statedb.SetBlockCoinbase(block.Coinbase().Recipient)
-	statedb.SetGasLimit(block.GasLimit())
 	var (
 		receipts types.Receipts
 		usedGas  = new(uint64)
-- 
2.43.0


From 384d1a5b7466378f3dbd956c175865a2d28c125f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:02 +0000
Subject: [PATCH 13/27] fix: leave out of an assembled block what the checks of
 a received block refuse

---
 core/minorblockchain_addon.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index 517f92f..97911b8 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -899,6 +899,10 @@ func (m *MinorBlockChain) checkTxBeforeApply(stateT *state.StateDB, tx *types.Tr
 			return ErrorTxContinue
 		}
 	}
+	// what the checks of a received block refuse must not get into this one
+	if err := ValidateTransaction(stateT, m.ChainConfig(), tx, nil); err != nil && err != ErrNonceTooLow {
+		return ErrorTxContinue
+	}
 	return nil
 }
 
-- 
2.43.0


From feb7765d53456819d7196c3679b100f4709ab9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:25 +0000
Subject: [PATCH 14/27] fix: judge what an account can pay for per token in the
 transaction pool

---
 core/tx_list.go | 44 ++++++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/core/tx_list.go b/core/tx_list.go
index 442965f..e630c4f 100644
--- a/core/tx_list.go
+++ b/core/tx_list.go
@@ -263,8 +263,10 @@ func (l *txList) Add(tx *types.Transaction, priceBump uint64) (bool, *types.Tran
 	// Otherwise overwrite the old transaction with the current one
 	l.txs.Put(tx)
 
-	if cost := tx.EvmTx.Cost(); l.cmpCostCapValue(tx.EvmTx.TransferTokenID(), cost) < 0 {
-		l.costcap[tx.EvmTx.TransferTokenID()] = cost
+	for token, cost := range txCosts(tx.EvmTx) {
+		if exceeds(cost, l.costcap[token]) {
+			l.costcap[token] = cost
+		}
 	}
 	if gas := tx.EvmTx.Gas(); l.gascap < gas {
 		l.gascap = gas
@@ -272,11 +274,23 @@ func (l *txList) Add(tx *types.Transaction, priceBump uint64) (bool, *types.Tran
 	return true, old
 }
 
-func (l *txList) cmpCostCapValue(token uint64, balance *big.Int) int {
-	if l.costcap[token] == nil {
-		l.costcap[token] = new(big.Int)
+// txCosts returns what the transaction costs at most, per token.
+func txCosts(tx *types.EvmTransaction) map[uint64]*big.Int {
+	if tx.TransferTokenID() == tx.GasTokenID() {
+		return map[uint64]*big.Int{tx.GasTokenID(): tx.Cost()}
+	}
+	return map[uint64]*big.Int{
+		tx.TransferTokenID(): tx.Value(),
+		tx.GasTokenID():      new(big.Int).Mul(tx.GasPrice(), new(big.Int).SetUint64(tx.Gas())),
 	}
-	return l.costcap[token].Cmp(balance)
+}
+
+// exceeds returns whether any of the cost is not covered; a missing limit is zero.
+func exceeds(cost, limit *big.Int) bool {
+	if limit == nil {
+		return cost.Sign() > 0
+	}
+	return cost.Cmp(limit) > 0
 }
 
 // Forward removes all transactions from the list with a nonce lower than the
@@ -297,21 +311,27 @@ func (l *txList) Forward(threshold uint64) types.Transactions {
 // the newly invalidated transactions.
 func (l *txList) Filter(costLimit map[uint64]*big.Int, gasLimit uint64) (types.Transactions, types.Transactions) {
 	// If all transactions are below the threshold, short circuit
-	for token, bal := range costLimit {
-		if l.cmpCostCapValue(token, bal) <= 0 && l.gascap <= gasLimit {
-			return nil, nil
+	covered := l.gascap <= gasLimit
+	for token, cost := range l.costcap {
+		if exceeds(cost, costLimit[token]) {
+			covered = false
 		}
 	}
+	if covered {
+		return nil, nil
+	}
 
 	l.costcap = costLimit // Lower the caps to the thresholds
 	l.gascap = gasLimit
 
 	// Filter out all the transactions above the account's funds
 	removed := l.txs.Filter(func(tx *types.Transaction) bool {
-		if costLimit[tx.EvmTx.TransferTokenID()] == nil {
-			costLimit[tx.EvmTx.TransferTokenID()] = new(big.Int)
+		for token, cost := range txCosts(tx.EvmTx) {
+			if exceeds(cost, costLimit[token]) {
+				return true
+			}
 		}
-		return tx.EvmTx.Cost().Cmp(costLimit[tx.EvmTx.TransferTokenID()]) > 0 || tx.EvmTx.Gas() > gasLimit
+		return tx.EvmTx.Gas() > gasLimit
 	})
 
 	// If the list was strict, filter anything above the lowest nonce
-- 
2.43.0


From 0fd67a60a39fc0987397e4c1d56a374046281721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:25 +0000
Subject: [PATCH 15/27] fix: report each refused transaction of a batch in its
 own place

---
 core/tx_pool.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/tx_pool.go b/core/tx_pool.go
index 3d51844..4c995ef 100644
--- a/core/tx_pool.go
+++ b/core/tx_pool.go
@@ -665,6 +665,7 @@ func (pool *TxPool) addTxs(txs []*types.Transaction, local, sync bool) []error {
 			nilSlot++
 		}
 		errs[nilSlot] = err
+		nilSlot++
 	}
 	// Reorg the pool internals if needed and return
 	done := pool.requestPromoteExecutables(dirtyAddrs)
-- 
2.43.0


From 62a8a9bde997bdfb2591e8cfc0318c71662071a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:18 +0000
Subject: [PATCH 16/27] fix: demote the pooled transactions behind a gap that a
 reorg leaves further on

---
 core/tx_pool.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/core/tx_pool.go b/core/tx_pool.go
index 4c995ef..06c9c21 100644
--- a/core/tx_pool.go
+++ b/core/tx_pool.go
@@ -1247,9 +1247,14 @@ func (pool *TxPool) demoteUnexecutables() {
 			pool.enqueueTx(hash, tx)
 		}
 
-		// If there's a gap in front, alert (should never happen) and postpone all transactions
-		if list.Len() > 0 && list.txs.Get(nonce) == nil {
-			gapped := list.Cap(0)
+		// If there's a gap, postpone all transactions behind it: at the front or, when
+		// a reorg returned only some of the transactions in between, further on
+		ready := 0
+		for list.txs.Get(nonce+uint64(ready)) != nil {
+			ready++
+		}
+		if list.Len() > ready {
+			gapped := list.Cap(ready)
 			for _, tx := range gapped {
 				hash := tx.Hash()
 				log.Error("Demoting invalidated transaction", "hash", hash)
-- 
2.43.0


From d9f91c21ea75c363a3892baf70dfc286f4de0673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:41 +0000
Subject: [PATCH 17/27] fix: refuse a system contract index that does not fit
 instead of panicking

---
 core/vm/contracts.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/vm/contracts.go b/core/vm/contracts.go
index cb8d8b7..9e500d8 100644
--- a/core/vm/contracts.go
+++ b/core/vm/contracts.go
@@ -638,15 +638,15 @@ func (r *deploySystemContract) RequiredGas(input []byte) uint64 {
 
 func (r *deploySystemContract) Run(input []byte, evm *EVM, contract *Contract) ([]byte, error) {
 	data := getData(input, 0, 32)
-	index := new(big.Int).SetBytes(data).Uint64()
-	contractIndex := 1
-	if index > 0 {
-		contractIndex = int(index)
-	}
-	if int(contractIndex) >= len(SystemContracts) {
+	index := new(big.Int).SetBytes(data)
+	if index.Cmp(big.NewInt(int64(len(SystemContracts)))) >= 0 {
 		contract.Gas = 0
 		return nil, ErrInvalidSystemContractIndex
 	}
+	contractIndex := 1
+	if index.Sign() > 0 {
+		contractIndex = int(index.Int64())
+	}
 
 	if SystemContractScopeMap[contractIndex] != ContractScopeGlobal {
 		if SystemContractScopeMap[contractIndex] != ContractScopeLocalChain0 {
-- 
2.43.0


From 451e49299792e5431a4e05f0a594977cbb63133c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:41 +0000
Subject: [PATCH 18/27] fix: check the whole token id when minting and reading
 native token balances

---
 core/vm/contracts.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/vm/contracts.go b/core/vm/contracts.go
index 9e500d8..452171f 100644
--- a/core/vm/contracts.go
+++ b/core/vm/contracts.go
@@ -705,7 +705,7 @@ func (m *mintMNT) Run(input []byte, evm *EVM, contract *Contract) ([]byte, error
 	}
 
 	// Token ID should be within range
-	if mnt.Uint64() > qCommon.TOKENIDMAX {
+	if mnt.Cmp(new(big.Int).SetUint64(qCommon.TOKENIDMAX)) > 0 {
 		return nil, fmt.Errorf("tokenid %v > TOKENIDMAX %v", mnt, qCommon.TOKENIDMAX)
 	}
 
@@ -755,7 +755,7 @@ func (m *balanceMNT) Run(input []byte, evm *EVM, contract *Contract) ([]byte, er
 	mntBytes := getData(input, 32, 32)
 	mnt := new(big.Int).SetBytes(mntBytes)
 	// Token ID should be within range
-	if mnt.Uint64() > qCommon.TOKENIDMAX {
+	if mnt.Cmp(new(big.Int).SetUint64(qCommon.TOKENIDMAX)) > 0 {
 		return nil, fmt.Errorf("tokenid %v > TOKENIDMAX %v", mnt, qCommon.TOKENIDMAX)
 	}
 
-- 
2.43.0


From 1a0f7a44b7ad4909c94394b5dce7605fb5b2f9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:41 +0000
Subject: [PATCH 19/27] fix: do not let code the minting contract calls mint by
 delegating

---
 core/vm/contracts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/vm/contracts.go b/core/vm/contracts.go
index 452171f..a3949e3 100644
--- a/core/vm/contracts.go
+++ b/core/vm/contracts.go
@@ -725,7 +725,7 @@ func (m *mintMNT) Run(input []byte, evm *EVM, contract *Contract) ([]byte, error
 	}
 	allowedSender := SystemContracts[NON_RESERVED_NATIVE_TOKEN].Address()
 	//  # Only system contract has access to minting new token
-	if !bytes.Equal(allowedSender.Bytes(), contract.CallerAddress.Bytes()) {
+	if !bytes.Equal(allowedSender.Bytes(), contract.CallerAddress.Bytes()) || contract.caller.Address() != allowedSender {
 		contract.Gas = 0
 		return nil, core.ErrInvalidSender
 	}
-- 
2.43.0


From 0fe9b259e03c4cbeae60658fc5b82ed99a05170e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:41 +0000
Subject: [PATCH 20/27] fix: keep native token operations from changing the
 state inside a static call

---
 core/vm/contracts.go | 10 +++++++++-
 core/vm/evm.go       |  7 +++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/core/vm/contracts.go b/core/vm/contracts.go
index a3949e3..9683a92 100644
--- a/core/vm/contracts.go
+++ b/core/vm/contracts.go
@@ -558,7 +558,7 @@ func (c *transferMnt) Run(input []byte, evm *EVM, contract *Contract) ([]byte, e
 		return nil, errors.New("should 96")
 	}
 
-	if contract.IsStaticCall {
+	if evm.inStaticCall(contract) {
 		contract.Gas = 0
 		return nil, errors.New("transferMnt Run: static call not allowed ")
 	}
@@ -637,6 +637,10 @@ func (r *deploySystemContract) RequiredGas(input []byte) uint64 {
 }
 
 func (r *deploySystemContract) Run(input []byte, evm *EVM, contract *Contract) ([]byte, error) {
+	if evm.inStaticCall(contract) {
+		contract.Gas = 0
+		return nil, errWriteProtection
+	}
 	data := getData(input, 0, 32)
 	index := new(big.Int).SetBytes(data)
 	if index.Cmp(big.NewInt(int64(len(SystemContracts)))) >= 0 {
@@ -693,6 +697,10 @@ func (m *mintMNT) RequiredGas(input []byte) uint64 {
 
 //# 3 inputs: (minter, token ID, amount)
 func (m *mintMNT) Run(input []byte, evm *EVM, contract *Contract) ([]byte, error) {
+	if evm.inStaticCall(contract) {
+		contract.Gas = 0
+		return nil, errWriteProtection
+	}
 	minterBytes := getData(input, 0, 32)
 	minter := common.BytesToAddress(minterBytes)
 	mntBytes := getData(input, 32, 32)
diff --git a/core/vm/evm.go b/core/vm/evm.go
index 0368d70..c2dd650 100644
--- a/core/vm/evm.go
+++ b/core/vm/evm.go
@@ -191,6 +191,13 @@ func checkTokenIDQueried(err error, contract *Contract, txansferTokenID, default
 	return err
 }
 
+// inStaticCall returns whether the state must not be modified: the contract, or
+// one that called it, was called by STATICCALL.
+func (evm *EVM) inStaticCall(contract *Contract) bool {
+	in, ok := evm.interpreter.(*EVMInterpreter)
+	return contract.IsStaticCall || ok && in.readOnly
+}
+
 // Call executes the contract associated with the addr with the given input as
 // parameters. It also handles any necessary value transfer required and takes
 // the necessary steps to create accounts and reverses the state in case of an
-- 
2.43.0


From 900147480d9c7b269338a8cb726184136502bf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:00 +0000
Subject: [PATCH 21/27] fix: refuse a peer without a common ancestor in reach
 instead of crashing

---
 cluster/sync/minor_task.go | 2 +-
 cluster/sync/root_task.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cluster/sync/minor_task.go b/cluster/sync/minor_task.go
index 368148c..79e66d7 100644
--- a/cluster/sync/minor_task.go
+++ b/cluster/sync/minor_task.go
@@ -55,7 +55,7 @@ func NewMinorChainTask(
 				return nil, err
 			}
 
-			if !bc.HasBlock(ancestor.Hash()) {
+			if ancestor == nil || !bc.HasBlock(ancestor.Hash()) {
 				return nil, errors.New("Bad ancestor ")
 			}
 
diff --git a/cluster/sync/root_task.go b/cluster/sync/root_task.go
index 877c7b8..ffddbef 100644
--- a/cluster/sync/root_task.go
+++ b/cluster/sync/root_task.go
@@ -65,7 +65,7 @@ func NewRootChainTask(
 				return nil, err
 			}
 
-			if !bc.HasBlock(ancestor.Hash()) {
+			if ancestor == nil || !bc.HasBlock(ancestor.Hash()) {
 				return nil, errors.New("Bad ancestor ")
 			}
 
-- 
2.43.0


From ad851c6b4edc94c001e087bdf7c534918f300619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:34 +0000
Subject: [PATCH 22/27] fix: list transactions newest first, so that later
 pages go on where the last one ended

---
 core/minorblockchain_addon.go | 40 +++++++++++++++++------------------
 qkcdb/interface.go            |  7 ++++++
 qkcdb/leveldb.go              | 17 +++++++++++++++
 qkcdb/rocksdb.go              | 12 +++++++++++
 4 files changed, 56 insertions(+), 20 deletions(-)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index 97911b8..d253640 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -1544,14 +1544,14 @@ func (m *MinorBlockChain) getPendingTxByAddress(address account.Address, transfe
 }
 
 func (m *MinorBlockChain) getTransactionDetails(start, end []byte, limit uint32, getTxType GetTxDetailType, skipCoinbaseRewards bool, transferTokenID *uint64) ([]*rpc.TransactionDetail, []byte, error) {
-	qkcDB, ok := m.db.(*qkcdb.QKCDataBase)
+	qkcDB, ok := m.db.(qkcdb.ReverseKeyIterator)
 	if !ok {
 		return nil, nil, errors.New("only support qkcdb now")
 	}
 
 	skipXShard := func(xShardTx *types.CrossShardTransactionDeposit) bool {
 		if xShardTx.IsFromRootChain {
-			return skipCoinbaseRewards || xShardTx.Value.Value.Uint64() == 0
+			return skipCoinbaseRewards || xShardTx.Value.Value.Sign() == 0
 		}
 		return transferTokenID != nil && xShardTx.TransferTokenID != *transferTokenID
 	}
@@ -1563,37 +1563,33 @@ func (m *MinorBlockChain) getTransactionDetails(start, end []byte, limit uint32,
 	var (
 		next       = end
 		txList     = make([]*rpc.TransactionDetail, 0)
-		it         = qkcDB.NewIterator()
 		height     uint64
 		crossShard bool
 		err        error
 		index      uint32
 		txHashes   = make(map[common.Hash]struct{})
 	)
-	it.Seek(end)
-	for it.Valid() {
-		if bytes.Compare(it.Key(), start) > 0 {
-			break
-		}
+	// newest first, so that what is older than the last one listed is the next page
+	addDetail := func(key []byte) error {
 		if getTxType == GetTxFromAddress {
-			height, crossShard, index, err = decodeTxKey(it.Key(), len(addressTxKey), 20)
+			height, crossShard, index, err = decodeTxKey(key, len(addressTxKey), 20)
 		} else if getTxType == GetAllTransaction {
-			height, crossShard, index, err = decodeTxKey(it.Key(), len(allTxKey), 0)
+			height, crossShard, index, err = decodeTxKey(key, len(allTxKey), 0)
 		} else {
-			return nil, nil, errors.New("not support yet")
+			return errors.New("not support yet")
 		}
 		if err != nil {
-			return nil, nil, err
+			return err
 		}
 		mBlock, ok := m.GetBlockByNumber(height).(*types.MinorBlock)
 		if !ok {
 			log.Error(m.logInfo, "get minor block fialed height", height)
-			return nil, nil, errors.New("get minBlock failed")
+			return errors.New("get minBlock failed")
 		}
 		if crossShard {
 			xShardReceiveTxList := rawdb.ReadConfirmedCrossShardTxList(m.db, mBlock.Hash())
 			if index >= uint32(len(xShardReceiveTxList.TXList)) {
-				return nil, nil, errors.New("tx's index bigger than txs's len ")
+				return errors.New("tx's index bigger than txs's len ")
 			}
 			tx := xShardReceiveTxList.TXList[index]
 			_, ok := txHashes[tx.TxHash]
@@ -1624,7 +1620,7 @@ func (m *MinorBlockChain) getTransactionDetails(start, end []byte, limit uint32,
 				receipt, _, _ := rawdb.ReadReceipt(m.db, tx.Hash())
 				sender, err := types.Sender(m.signer, evmTx)
 				if err != nil {
-					return nil, nil, err
+					return err
 				}
 				toAddr := new(account.Address)
 				if evmTx.To() == nil {
@@ -1658,11 +1654,15 @@ func (m *MinorBlockChain) getTransactionDetails(start, end []byte, limit uint32,
 			}
 
 		}
-		next = bytesSubOne(it.Key())
-		if limit == 0 {
-			break
-		}
-		it.Next()
+		next = bytesSubOne(key)
+		return nil
+	}
+	qkcDB.ReverseKeys(start, end, func(key []byte) bool {
+		err = addDetail(key)
+		return err == nil && limit != 0
+	})
+	if err != nil {
+		return nil, nil, err
 	}
 	return txList, next, nil
 }
diff --git a/qkcdb/interface.go b/qkcdb/interface.go
index 285fc45..4415be8 100755
--- a/qkcdb/interface.go
+++ b/qkcdb/interface.go
@@ -17,6 +17,13 @@ type Database = ethdb.Database
 // when Write is called. Batch cannot be used concurrently.
 type Batch = ethdb.Batch
 
+// ReverseKeyIterator is a database whose keys can be walked through in descending order.
+type ReverseKeyIterator interface {
+	// ReverseKeys calls f with the keys from start (which need not be in the database)
+	// down to end, both included, until f returns false.
+	ReverseKeys(start, end []byte, f func(key []byte) bool)
+}
+
 const (
 	cache   int = 128
 	handles     = 256
diff --git a/qkcdb/leveldb.go b/qkcdb/leveldb.go
index 8a48673..7e7c3e0 100644
--- a/qkcdb/leveldb.go
+++ b/qkcdb/leveldb.go
@@ -3,6 +3,7 @@
 package qkcdb
 
 import (
+	"bytes"
 	"os"
 
 	"github.com/ethereum/go-ethereum/ethdb"
@@ -33,3 +34,19 @@ func (db *QKCDataBase) Put(key []byte, value []byte) error {
 	}
 	return db.LDBDatabase.Put(key, value)
 }
+
+// ReverseKeys calls f with the keys from start down to end until f returns false.
+func (db *QKCDataBase) ReverseKeys(start, end []byte, f func(key []byte) bool) {
+	it := db.NewIterator()
+	defer it.Release()
+	valid := it.Seek(start)
+	if !valid {
+		valid = it.Last()
+	}
+	for ; valid && bytes.Compare(it.Key(), end) >= 0; valid = it.Prev() {
+		// Seek stops at the first key that is not below start
+		if bytes.Compare(it.Key(), start) <= 0 && !f(it.Key()) {
+			return
+		}
+	}
+}
diff --git a/qkcdb/rocksdb.go b/qkcdb/rocksdb.go
index 37d48f1..d582d83 100644
--- a/qkcdb/rocksdb.go
+++ b/qkcdb/rocksdb.go
@@ -3,6 +3,7 @@
 package qkcdb
 
 import (
+	"bytes"
 	"errors"
 	"os"
 	"sync"
@@ -121,6 +122,17 @@ func (db *QKCDataBase) NewIterator() *QKCIterator {
 	}
 }
 
+// ReverseKeys calls f with the keys from start down to end until f returns false.
+func (db *QKCDataBase) ReverseKeys(start, end []byte, f func(key []byte) bool) {
+	it := db.db.NewIterator(db.ro)
+	defer it.Close()
+	for it.SeekForPrev(start); it.Valid() && bytes.Compare(it.Key().Data(), end) >= 0; it.Prev() {
+		if !f(it.Key().Data()) {
+			return
+		}
+	}
+}
+
 func (db *QKCDataBase) Close() {
 	db.closeOnce.Do(func() {
 		db.db.Close()
-- 
2.43.0


From 6c3a8dd6fd0f3e48175217da1db5ac27a141f80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:40 +0000
Subject: [PATCH 23/27] fix: estimate gas of arriving transactions for a funded
 sender, and do not crash on refused ones

---
 core/minorblockchain_addon.go | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index d253640..d114d23 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -1268,14 +1268,24 @@ func (m *MinorBlockChain) EstimateGas(tx *types.Transaction, fromAddress *accoun
 	}
 	cap := hi
 
+	// a transaction from another shard has been paid for there when it arrives; validateTx
+	// moves it into the sender's shard, so what it is has to be known before
+	fromFullShardID, err := m.clusterConfig.Quarkchain.GetFullShardIdByFullShardKey(tx.EvmTx.FromFullShardKey())
+	if err != nil {
+		return 0, err
+	}
+	toFullShardID, err := m.clusterConfig.Quarkchain.GetFullShardIdByFullShardKey(tx.EvmTx.ToFullShardKey())
+	if err != nil {
+		return 0, err
+	}
+	isArriving := fromFullShardID != toFullShardID && toFullShardID == m.branch.Value
+
 	runTx := func(gas uint32) error {
 		evmState := currentState.Copy()
-		if tx.EvmTx.IsCrossShard() && tx.EvmTx.ToFullShardId() == m.branch.Value {
-			evmState.SetBalance(fromAddress.Recipient, tx.EvmTx.Value(), tx.EvmTx.TransferTokenID())
-
-			gasFee := big.NewInt(int64(tx.EvmTx.Gas()))
-			gasFee.Mul(gasFee, tx.EvmTx.GasPrice())
-			evmState.SetBalance(fromAddress.Recipient, gasFee, tx.EvmTx.GasTokenID())
+		if isArriving {
+			gasFee := new(big.Int).Mul(new(big.Int).SetUint64(uint64(gas)), tx.EvmTx.GasPrice())
+			evmState.AddBalance(fromAddress.Recipient, tx.EvmTx.Value(), tx.EvmTx.TransferTokenID())
+			evmState.AddBalance(fromAddress.Recipient, gasFee, tx.EvmTx.GasTokenID())
 		}
 
 		evmState.SetGasUsed(new(big.Int).SetUint64(0))
@@ -1287,13 +1297,14 @@ func (m *MinorBlockChain) EstimateGas(tx *types.Transaction, fromAddress *accoun
 
 		gp := new(GasPool).AddGas(evmState.GetGasLimit().Uint64())
 		gasUsed := new(uint64)
-		receipt := new(types.Receipt)
-		_, receipt, _, err = ApplyTransaction(m.ChainConfig(), m, gp, evmState, m.CurrentHeader(), evmTx, gasUsed, m.vmConfig)
-
+		_, receipt, _, err := ApplyTransaction(m.ChainConfig(), m, gp, evmState, m.CurrentHeader(), evmTx, gasUsed, m.vmConfig)
+		if err != nil {
+			return err
+		}
 		if receipt.Status == types.ReceiptStatusFailed {
 			return errors.New("failed")
 		}
-		return err
+		return nil
 	}
 
 	for lo+1 < hi {
-- 
2.43.0


From 292534e58b4ee179ae55a72f1447df7e10110b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:40 +0000
Subject: [PATCH 24/27] fix: a call on an earlier block sees that block's
 number and time

---
 core/minorblockchain_addon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index d114d23..3f0320e 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -718,7 +718,7 @@ func (m *MinorBlockChain) ExecuteTx(tx *types.Transaction, fromAddress *account.
 	}
 	gp := new(GasPool).AddGas(mBlock.GasLimit().Uint64())
 	gasUsed := new(uint64)
-	ret, receipt, _, err := ApplyTransaction(m.ChainConfig(), m, gp, state, m.CurrentHeader(), evmTx, gasUsed, *m.GetVMConfig())
+	ret, receipt, _, err := ApplyTransaction(m.ChainConfig(), m, gp, state, mBlock.Header(), evmTx, gasUsed, *m.GetVMConfig())
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 0805d9e1fda005229cdea20bbb7c850b40e632b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:29 +0000
Subject: [PATCH 25/27] fix: a root header request's skip wraps around at 2^32

---
 cluster/master/handle.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cluster/master/handle.go b/cluster/master/handle.go
index 5b92e4a..784c9cb 100644
--- a/cluster/master/handle.go
+++ b/cluster/master/handle.go
@@ -538,7 +538,7 @@ func (pm *ProtocolManager) HandleGetRootBlockHeaderListWithSkipRequest(peerId st
 	}
 
 	var (
-		height     uint32
+		height     uint64 // Skip takes it beyond 32 bits
 		hash       common.Hash
 		rBHeader   *types.RootBlockHeader
 		headerlist = make([]*types.RootBlockHeader, 0, request.Limit)
@@ -546,7 +546,7 @@ func (pm *ProtocolManager) HandleGetRootBlockHeaderListWithSkipRequest(peerId st
 
 	rTip := pm.rootBlockChain.CurrentHeader().(*types.RootBlockHeader)
 	if request.Type == 1 {
-		height = *request.GetHeight()
+		height = uint64(*request.GetHeight())
 	} else {
 		hash = request.GetHash()
 		iHeader := pm.rootBlockChain.GetHeader(hash)
@@ -560,19 +560,19 @@ func (pm *ProtocolManager) HandleGetRootBlockHeaderListWithSkipRequest(peerId st
 		if qkcom.IsNil(iHeader) || rBHeader.Hash() != iHeader.Hash() {
 			return &p2p.GetRootBlockHeaderListResponse{RootTip: rTip}, nil
 		}
-		height = rBHeader.Number
+		height = rBHeader.NumberU64()
 	}
 
-	for len(headerlist) < int(request.Limit) && height >= 0 && height <= rTip.Number {
-		iHeader := pm.rootBlockChain.GetHeaderByNumber(uint64(height))
+	for len(headerlist) < int(request.Limit) && height >= 0 && height <= rTip.NumberU64() {
+		iHeader := pm.rootBlockChain.GetHeaderByNumber(height)
 		if qkcom.IsNil(iHeader) {
 			break
 		}
 		headerlist = append(headerlist, iHeader.(*types.RootBlockHeader))
 		if request.Direction == qkcom.DirectionToGenesis {
-			height -= request.Skip + 1
+			height -= uint64(request.Skip) + 1
 		} else {
-			height += request.Skip + 1
+			height += uint64(request.Skip) + 1
 		}
 	}
 
-- 
2.43.0


From bd8476a6e3ca8a1745572a84c0bec6e58975265e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:29 +0000
Subject: [PATCH 26/27] fix: a header request's height is cut to its low bits

---
 p2p/p2p_commands.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/p2p/p2p_commands.go b/p2p/p2p_commands.go
index 786742a..333d698 100644
--- a/p2p/p2p_commands.go
+++ b/p2p/p2p_commands.go
@@ -2,6 +2,7 @@ package p2p
 
 import (
 	"bytes"
+	"math"
 	"math/big"
 	"reflect"
 	"strconv"
@@ -201,7 +202,10 @@ func (r *GetRootBlockHeaderListWithSkipRequest) SetHeight(height uint32) {
 func (r *GetRootBlockHeaderListWithSkipRequest) GetHeight() *uint32 {
 	var height *uint32
 	if r.Type == qkcom.SkipHeight {
-		h := uint32(new(big.Int).SetBytes(r.Data[:]).Uint64())
+		h := uint32(math.MaxUint32) // a height beyond that is of no block either
+		if d := new(big.Int).SetBytes(r.Data[:]); d.IsUint64() && d.Uint64() < math.MaxUint32 {
+			h = uint32(d.Uint64())
+		}
 		height = &h
 	}
 	return height
@@ -230,7 +234,10 @@ func (r *GetMinorBlockHeaderListWithSkipRequest) SetHeight(height uint64) {
 
 func (r *GetMinorBlockHeaderListWithSkipRequest) GetHeight() *uint64 {
 	if r.Type == qkcom.SkipHeight {
-		h := new(big.Int).SetBytes(r.Data[:]).Uint64()
+		h := uint64(math.MaxUint64) // a height beyond that is of no block either
+		if d := new(big.Int).SetBytes(r.Data[:]); d.IsUint64() {
+			h = d.Uint64()
+		}
 		return &h
 	}
 	return nil
-- 
2.43.0


From e89bf20460719d7e525c81ea54b3a8012dc289ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:07 +0000
Subject: [PATCH 27/27] fix: a peer that asks for the block of hash zero is
 sent the current one

---
 cluster/slave/api_backend.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cluster/slave/api_backend.go b/cluster/slave/api_backend.go
index 6836787..aca6ff2 100755
--- a/cluster/slave/api_backend.go
+++ b/cluster/slave/api_backend.go
@@ -379,9 +379,10 @@ func (s *SlaveBackend) GetMinorBlockListByHashList(mHashList []common.Hash, bran
 	}
 
 	for _, hash := range mHashList {
-		block, err := shrd.GetMinorBlock(hash, nil)
-		if err != nil {
-			return nil, err
+		// not shrd.GetMinorBlock, which takes the zero hash for the current block
+		block := shrd.MinorBlockChain.GetMinorBlock(hash)
+		if block == nil {
+			return nil, errors.New("minor block not found")
 		}
 		minorList = append(minorList, block)
 	}
-- 
2.43.0

