package core

import (
	"math/big"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/core/state"
	"github.com/QuarkChain/goquarkchain/core/types"
	qkcParams "github.com/QuarkChain/goquarkchain/params"
	"github.com/QuarkChain/goquarkchain/serialize"
	"github.com/QuarkChain/goquarkchain/verifsym"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/event"
	"github.com/ethereum/go-ethereum/params"
)

// verifPoolChain is the chain as the pool sees it: a head, blocks by hash, and
// the account state at each of them.
type verifPoolChain struct {
	cfg    *config.QuarkChainConfig
	head   *types.MinorBlock
	blocks map[common.Hash]*types.MinorBlock
	accts  map[common.Hash][]verifAcct
	feed   event.Feed
}

type verifAcct struct {
	nonce uint64
	bal   map[uint64]*big.Int
}

func (c *verifPoolChain) CurrentBlock() *types.MinorBlock                 { return c.head }
func (c *verifPoolChain) GetMinorBlock(hash common.Hash) *types.MinorBlock { return c.blocks[hash] }
func (c *verifPoolChain) Config() *config.QuarkChainConfig                { return c.cfg }
func (c *verifPoolChain) ChainConfig() *params.ChainConfig                { return &qkcParams.DefaultConstantinople }
func (c *verifPoolChain) SubscribeChainHeadEvent(ch chan<- MinorChainHeadEvent) event.Subscription {
	return c.feed.Subscribe(ch)
}
func (c *verifPoolChain) stateAtWithSenderDisallowMap(b *types.MinorBlock, _ *account.Recipient) (*state.StateDB, error) {
	st := verifState()
	st.SetQuarkChainConfig(c.cfg)
	for i, a := range c.accts[b.Hash()] {
		st.SetNonce(verifAddr(byte(i+1)), a.nonce)
		for _, t := range []uint64{35760, 990} {
			if a.bal[t] != nil {
				st.AddBalance(verifAddr(byte(i+1)), a.bal[t], t)
			}
		}
	}
	return st, nil
}
func (c *verifPoolChain) validateTx(tx *types.Transaction, st *state.StateDB, _ *account.Address, _, _ *uint64) (*types.Transaction, error) {
	return tx, ValidateTransaction(st, c.ChainConfig(), tx, nil)
}

// block makes a block with the given account states a child of the given one and the head
func (c *verifPoolChain) block(parent *types.MinorBlock, txs []*types.Transaction, accts ...verifAcct) *types.MinorBlock {
	h := &types.MinorBlockHeader{Difficulty: big.NewInt(1), CoinbaseAmount: types.NewEmptyTokenBalances(), GasLimit: &serialize.Uint256{Value: big.NewInt(60000)}}
	if parent != nil {
		h.Number, h.ParentHash = parent.NumberU64()+1, parent.Hash()
	}
	h.Extra = []byte{byte(len(c.blocks))}
	b := types.NewMinorBlockWithHeader(h, &types.MinorBlockMeta{GasUsed: &serialize.Uint256{Value: new(big.Int)}, CrossShardGasUsed: &serialize.Uint256{Value: new(big.Int)}, XShardGasLimit: &serialize.Uint256{Value: new(big.Int)}, XShardTxCursorInfo: &types.XShardTxCursorInfo{}})
	for _, t := range txs {
		b.AddTx(t)
	}
	c.blocks[b.Hash()], c.accts[b.Hash()], c.head = b, accts, b
	return b
}

// verifPoolModel is what the pool should hold: one transaction per account and nonce.
type verifPoolModel struct {
	c  *verifPoolChain
	p  *TxPool
	tx []map[uint64]*types.Transaction
}

// payable: the account has the value and the gas, each in its own token
func verifPayable(a verifAcct, t *types.EvmTransaction) bool {
	need := map[uint64]*big.Int{}
	fee := verifMul(verifB(t.Gas()), t.GasPrice())
	need[t.GasTokenID()] = fee
	if t.TransferTokenID() == t.GasTokenID() {
		need[t.GasTokenID()] = verifAdd(fee, t.Value())
	} else {
		need[t.TransferTokenID()] = t.Value()
	}
	for _, tok := range []uint64{35760, 990} {
		if need[tok] == nil {
			continue
		}
		have := a.bal[tok]
		if have == nil {
			have = new(big.Int)
		}
		if have.Cmp(need[tok]) < 0 {
			return false
		}
		if tok != 35760 && have.Sign() == 0 {
			return false
		}
	}
	return true
}

func (m *verifPoolModel) add(acct int, t *types.Transaction) (ok bool) {
	e, a := t.EvmTx, m.c.accts[m.c.head.Hash()][acct]
	if e.Nonce() < a.nonce || e.Gas() > 60000 || e.Gas() < 21000 || !verifPayable(a, e) {
		return false
	}
	if old := m.tx[acct][e.Nonce()]; old != nil {
		p := old.EvmTx.GasPrice()
		if e.GasPrice().Cmp(p) <= 0 || e.GasPrice().Cmp(new(big.Int).Div(verifMul(p, big.NewInt(110)), big.NewInt(100))) < 0 {
			return false
		}
	}
	m.tx[acct][e.Nonce()] = t
	return true
}

// head drops what the new head makes void
func (m *verifPoolModel) head() {
	for i, a := range m.c.accts[m.c.head.Hash()] {
		for n := uint64(0); n < 8; n++ {
			if t := m.tx[i][n]; t != nil && (n < a.nonce || !verifPayable(a, t.EvmTx)) {
				delete(m.tx[i], n)
			}
		}
	}
}

func (m *verifPoolModel) check(when string) {
	pending, queued := m.p.Content()
	total := 0
	for i, a := range m.c.accts[m.c.head.Hash()] {
		var ready, later types.Transactions
		next := a.nonce
		for n := uint64(0); n < 8; n++ {
			t := m.tx[i][n]
			if t == nil {
				continue
			}
			if n == next {
				ready, next = append(ready, t), next+1
			} else {
				later = append(later, t)
			}
			total++
			verifsym.Assert(m.p.Get(t.Hash()) == t, "a transaction of the pool is not found by its hash "+when)
		}
		verifSameTxs(pending[verifAddr(byte(i+1))], ready, "executable transactions "+when)
		verifSameTxs(queued[verifAddr(byte(i+1))], later, "waiting transactions "+when)
		verifsym.Assert(m.p.Nonce(verifAddr(byte(i+1))) == next, "next nonce "+when)
	}
	verifsym.Assert(m.p.PendingCount() == total && len(m.p.GetAllTxInPool()) == total, "number of transactions "+when)
}

func verifSameTxs(got, want types.Transactions, what string) {
	verifsym.Assert(len(got) == len(want), what)
	for i := range want {
		verifsym.Assert(got[i] == want[i], what)
	}
}

var verifPoolTxs int

func verifPoolTx(acct int, nonce uint64, kind int) *types.Transaction {
	price := verifsym.Big("price", big.NewInt(1<<20), big.NewInt(1<<24-1))
	value := verifsym.Big("value", big.NewInt(1<<40), big.NewInt(1<<48-1))
	tok := []uint64{35760, 990}[kind%2]
	verifPoolTxs++
	to := verifAddr(byte(16 + verifPoolTxs)) // no two are the same
	return verifTx(verifAddr(byte(acct+1)), &to, nonce, value, 21000, price, 0, 0, nil, 35760, tok)
}

func verifPoolBals(n string) map[uint64]*big.Int {
	return map[uint64]*big.Int{35760: verifBig(n, verifU128), 990: verifBig(n+"2", verifU128)}
}

// The pool against a plain map from account and nonce to transaction: what is
// refused, replaced, executable or waiting, after every addition and new head.
//
//verif:harness V20 time=200 ttime=900 paths=60000 steps=400000000 reach=added,refused,replaced,dropped
//verif:bounds two accounts with any balances in two tokens; three (thorough four) additions with nonces 0..1 (thorough 0..2), any price 2^20..2^24-1 and value 2^40..2^48-1 in either token, then a head that executed 0..2 transactions of the first account and left any balances, then one more addition
func VerifH_V20_Pool() {
	verifsym.OpaqueTxHash()
	verifsym.Feeds()
	c := &verifPoolChain{cfg: config.NewQuarkChainConfig(), blocks: map[common.Hash]*types.MinorBlock{}, accts: map[common.Hash][]verifAcct{}}
	c.cfg.MinTXPoolGasPrice = big.NewInt(1)
	cfg := DefaultTxPoolConfig
	b := c.block(nil, nil, verifAcct{0, verifPoolBals("a")}, verifAcct{0, map[uint64]*big.Int{35760: verifU128}})
	m := &verifPoolModel{c: c, p: NewTxPool(cfg, c), tx: []map[uint64]*types.Transaction{{}, {}}}
	step := func(acct int, n uint64, kind int) {
		t := verifPoolTx(acct, n, kind)
		old := m.tx[acct][n]
		want := m.add(acct, t)
		err := m.p.AddLocal(t)
		verifsym.Assert((err == nil) == want, "a transaction is taken exactly if it is valid and not underpriced "+verifErr(err))
		if !want {
			verifsym.Reach("refused")
		} else if old != nil {
			verifsym.Reach("replaced")
		} else {
			verifsym.Reach("added")
		}
		m.check("after an addition")
	}
	step(1, 0, 0)
	for i, n := 0, verifsym.Bound("additions", 2, 3); i < n; i++ {
		step(0, uint64(verifsym.Choose("nonce", verifsym.Bound("nonces", 2, 3))), verifsym.Choose("token", 2))
	}
	done := uint64(verifsym.Choose("executed", 3))
	c.block(b, nil, verifAcct{done, verifPoolBals("b")}, verifAcct{0, map[uint64]*big.Int{35760: verifU128}})
	before := len(m.tx[0])
	m.head()
	if len(m.tx[0]) < before {
		verifsym.Reach("dropped")
	}
	c.feed.Send(MinorChainHeadEvent{Block: c.head})
	(&verifShard{}).settle()
	m.check("after a new head")
	step(0, uint64(1+verifsym.Choose("last", 2)), 0)
}

func verifErr(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

// Of several transactions handed in together, each gets its own answer.
//
//verif:harness V20 time=60 reach=mixed
//verif:bounds batches of three, each affordable or not (any balance), new or already in the pool
func VerifH_V20_Batch() {
	verifsym.OpaqueTxHash()
	verifsym.Feeds()
	c := &verifPoolChain{cfg: config.NewQuarkChainConfig(), blocks: map[common.Hash]*types.MinorBlock{}, accts: map[common.Hash][]verifAcct{}}
	c.cfg.MinTXPoolGasPrice = big.NewInt(1)
	c.block(nil, nil, verifAcct{0, verifPoolBals("a")}, verifAcct{0, map[uint64]*big.Int{35760: verifU128}})
	m := &verifPoolModel{c: c, p: NewTxPool(DefaultTxPoolConfig, c), tx: []map[uint64]*types.Transaction{{}, {}}}
	known := verifPoolTx(1, 0, 0)
	verifsym.Assert(m.add(1, known) && m.p.AddLocal(known) == nil, "affordable transaction refused")
	var txs []*types.Transaction
	var want []bool
	for i := 0; i < 3; i++ {
		if verifsym.Choose("known", 2) == 1 {
			txs, want = append(txs, known), append(want, false)
			continue
		}
		t := verifPoolTx(0, uint64(i), 0)
		txs, want = append(txs, t), append(want, m.add(0, t))
	}
	errs := m.p.AddLocals(txs)
	verifsym.Assert(len(errs) == 3, "an answer for each")
	for i := range errs {
		verifsym.Assert((errs[i] == nil) == want[i], "the answer is about the transaction in that place")
	}
	if want[0] != want[1] {
		verifsym.Reach("mixed")
	}
	m.check("after a batch")
}

// When the chain moves to another fork, the transactions of the abandoned blocks
// that the new ones do not include are back in the pool, if they are still valid.
//
//verif:harness V20 time=120 ttime=600 paths=60000 steps=400000000 reach=back,lost,gap
//verif:bounds an abandoned fork of 1..2 blocks with the first and second transaction of an account, a new fork of 1..3 blocks that includes none, the same or another first transaction; a third and fourth transaction waiting; any balances on the new fork
func VerifH_V20_Reorg() {
	verifsym.OpaqueTxHash()
	verifsym.Feeds()
	c := &verifPoolChain{cfg: config.NewQuarkChainConfig(), blocks: map[common.Hash]*types.MinorBlock{}, accts: map[common.Hash][]verifAcct{}}
	c.cfg.MinTXPoolGasPrice = big.NewInt(1)
	rich := map[uint64]*big.Int{35760: verifU128}
	at := func(n uint64, b map[uint64]*big.Int) []verifAcct { return []verifAcct{{n, b}, {0, rich}} }
	base := c.block(nil, nil, at(0, rich)...)
	var t []*types.Transaction
	for i := uint64(0); i < 4; i++ {
		t = append(t, verifPoolTx(0, i, 0))
	}
	c.block(base, t[:2], at(2, rich)...)
	if verifsym.Choose("old", 2) == 1 {
		c.block(c.block(base, t[:1], at(1, rich)...), t[1:2], at(2, rich)...)
	}
	m := &verifPoolModel{c: c, p: NewTxPool(DefaultTxPoolConfig, c), tx: []map[uint64]*types.Transaction{{}, {}}}
	(&verifShard{}).settle()
	n := verifsym.Choose("waiting", 3)
	for _, x := range t[2 : 2+n] {
		verifsym.Assert(m.add(0, x) && m.p.AddLocal(x) == nil, "affordable transaction refused")
	}
	m.check("before")
	bal := map[uint64]*big.Int{35760: verifBig("b", verifU128)}
	b, nonce, in := base, uint64(0), []*types.Transaction(nil)
	switch verifsym.Choose("included", 3) {
	case 1:
		in, nonce = t[:1], 1
	case 2:
		in, nonce = []*types.Transaction{verifPoolTx(0, 0, 0)}, 1
	}
	for i, k := 0, verifsym.Choose("new", 3); i <= k; i++ {
		b, in = c.block(b, in, at(nonce, bal)...), nil
	}
	m.head()
	for _, x := range t[:2] {
		if x.EvmTx.Nonce() < nonce || m.tx[0][x.EvmTx.Nonce()] != nil {
			continue
		}
		if m.add(0, x) {
			verifsym.Reach("back")
		} else {
			verifsym.Reach("lost")
		}
	}
	if m.tx[0][0] != nil && m.tx[0][1] == nil && m.tx[0][2] != nil {
		verifsym.Reach("gap")
	}
	c.feed.Send(MinorChainHeadEvent{Block: c.head})
	(&verifShard{}).settle()
	m.check("after moving to another fork")
}
