package core

import (
	"bytes"
	"math/big"
	"sort"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/cluster/rpc"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/serialize"
	"github.com/QuarkChain/goquarkchain/verifsym"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/ethdb"
)

// verifKeyDB is a database in memory whose keys can be walked through backwards.
type verifKeyDB struct{ *ethdb.MemDatabase }

func (db verifKeyDB) ReverseKeys(start, end []byte, f func(key []byte) bool) {
	var ks []string
	for _, k := range db.Keys() {
		if (len(k) == 34 || len(k) == 13) && k[0] == 'i' { // the keys of the history
			ks = append(ks, string(k))
		}
	}
	sort.Strings(ks)
	for i := len(ks) - 1; i >= 0; i-- {
		k := []byte(ks[i])
		if bytes.Compare(k, end) < 0 {
			return
		}
		if bytes.Compare(k, start) <= 0 && !f(k) {
			return
		}
	}
}

// verifEntry is an entry of the history: what was sent or received, at a position.
type verifEntry struct {
	d     rpc.TransactionDetail
	addrs []common.Address // whose history it is in
	all   bool             // in the shard's history
	pos   [3]int           // height, 0 for deposits, index
}

func (e verifEntry) key() (k []byte) {
	return []byte{0, 0, 0, byte(e.pos[0]), byte(e.pos[1]), 0, 0, 0, byte(e.pos[2])}
}

// verifHistory is the history of the chain that ends in the head, newest first. What
// was delivered to which block is given.
func (s *verifShard) verifHistory(deps map[int][]*types.CrossShardTransactionDeposit) (es []verifEntry) {
	for i := s.head; i > 0; i = s.minorIdx(s.minors[i].ParentHash()) {
		b := s.minors[i]
		rs := s.m.GetReceiptsByHash(b.Hash())
		for k := len(b.Transactions()) - 1; k >= 0; k-- {
			t := b.Transactions()[k]
			e := t.EvmTx
			x := verifEntry{all: true, addrs: []common.Address{s.from.Recipient}, pos: [3]int{int(b.NumberU64()), 1, k}}
			x.d = rpc.TransactionDetail{TxHash: t.Hash(), FromAddress: account.Address{Recipient: s.from.Recipient, FullShardKey: e.FromFullShardKey()},
				Value: serialize.Uint256{Value: e.Value()}, BlockHeight: b.NumberU64(), Timestamp: b.Time(), Success: rs[k].Status == 1,
				GasTokenID: e.GasTokenID(), TransferTokenID: e.TransferTokenID(), Nonce: e.Nonce()}
			if e.To() != nil {
				x.d.ToAddress = &account.Address{Recipient: *e.To(), FullShardKey: e.ToFullShardKey()}
				if e.ToFullShardKey() == 0 {
					x.addrs = append(x.addrs, *e.To())
				}
			}
			es = append(es, x)
		}
		for k := len(deps[i]) - 1; k >= 0; k-- {
			d := deps[i][k]
			if d == nil {
				continue
			}
			x := verifEntry{all: !d.IsFromRootChain, addrs: []common.Address{d.To.Recipient}, pos: [3]int{int(b.NumberU64()), 0, k}}
			x.d = rpc.TransactionDetail{TxHash: d.TxHash, FromAddress: d.From, ToAddress: &d.To, Value: serialize.Uint256{Value: d.Value.Value}, BlockHeight: b.NumberU64(),
				Timestamp: b.Time(), Success: true, GasTokenID: d.GasTokenID, TransferTokenID: d.TransferTokenID, IsFromRootChain: d.IsFromRootChain}
			es = append(es, x)
		}
	}
	return
}

func verifSameDetail(g *rpc.TransactionDetail, w rpc.TransactionDetail) {
	verifsym.Assert(g.TxHash == w.TxHash && g.BlockHeight == w.BlockHeight, "the transactions listed are those of the chain, newest first")
	verifsym.Assert(g.FromAddress == w.FromAddress && (g.ToAddress == nil) == (w.ToAddress == nil) && (g.ToAddress == nil || *g.ToAddress == *w.ToAddress), "listed addresses")
	verifsym.Assert(verifEq(g.Value.Value, w.Value.Value) && g.GasTokenID == w.GasTokenID && g.TransferTokenID == w.TransferTokenID, "listed value and tokens")
	verifsym.Assert(g.Success == w.Success, "listed outcome")
	verifsym.Assert(g.Timestamp == w.Timestamp && g.Nonce == w.Nonce && g.IsFromRootChain == w.IsFromRootChain, "listed origin")
}

// checkHistory asks for every history, page by page, and from an arbitrary position.
func (s *verifShard) checkHistory(es []verifEntry, limit uint32) {
	qi := uint64(990)
	for _, a := range []common.Address{s.from.Recipient, verifAddr(9), verifAddr(2), verifAddr(8)} {
		for _, tok := range []*uint64{nil, &qi} {
			var want []verifEntry
			for _, e := range es {
				mine := false
				for _, x := range e.addrs {
					mine = mine || x == a
				}
				if mine && (tok == nil || e.d.IsFromRootChain || e.d.TransferTokenID == *tok) {
					want = append(want, e)
				}
			}
			s.checkPages(want, limit, func(start []byte, limit uint32) ([]*rpc.TransactionDetail, []byte, error) {
				return s.m.GetTransactionByAddress(account.Address{Recipient: a}, tok, start, limit)
			})
		}
	}
	var want []verifEntry
	for _, e := range es {
		if e.all {
			want = append(want, e)
		}
	}
	s.checkPages(want, limit, s.m.GetAllTx)
}

func (s *verifShard) checkPages(want []verifEntry, limit uint32, get func([]byte, uint32) ([]*rpc.TransactionDetail, []byte, error)) {
	var start []byte
	for n := 0; ; {
		got, next, err := get(start, limit)
		verifsym.Assert(err == nil, "the history is answered")
		verifsym.Assert(uint32(len(got)) <= limit, "no more than asked for")
		verifsym.Assert(len(got) <= len(want)-n, "nothing is listed that is not on the chain, nor twice")
		for _, g := range got {
			verifSameDetail(g, want[n].d)
			n++
		}
		if len(got) == 0 {
			verifsym.Assert(n == len(want), "everything is listed")
			return
		}
		verifsym.Assert(n == len(want) || uint32(len(got)) == limit, "a page is full unless it is the last")
		start = next
	}
}

// histTx: one of several kinds of transaction
func (s *verifShard) histTx(kind int, nonce uint64) *types.Transaction {
	to := account.Address{Recipient: verifAddr(9), FullShardKey: 0}
	gas, qi := uint64(21000), uint64(990)
	switch kind {
	case 1:
		to.Recipient = s.from.Recipient
	case 2:
		to.FullShardKey, gas = 1, 40000
	case 3: // a contract that fails
		k, _ := crypto.ToECDSA(s.key)
		t := types.NewEvmContractCreation(nonce, big.NewInt(3), 60000, big.NewInt(1), 0, 0, 3, 0, []byte{0xfe}, s.m.GetGenesisToken(), s.m.GetGenesisToken())
		t, err := types.SignTx(t, types.MakeSigner(3), k)
		if err != nil {
			panic(err)
		}
		return transEvmTxToTx(t)
	case 4:
		return createTransferTransaction(s.m, s.key, s.from, to, big.NewInt(11), &gas, nil, &nonce, nil, nil, &qi)
	}
	return createTransferTransaction(s.m, s.key, s.from, to, big.NewInt(int64(5+kind)), &gas, nil, &nonce, nil, nil, nil)
}

func verifHistShard() *verifShard {
	s := verifNewShardWith(func(c *config.QuarkChainConfig) {
		for _, id := range c.GetGenesisShardIds() {
			for a, al := range c.GetShardConfigByFullShardID(id).Genesis.Alloc {
				if al.Balances == nil {
					al.Balances = map[string]*big.Int{}
				}
				al.Balances["QI"] = big.NewInt(1000)
				c.GetShardConfigByFullShardID(id).Genesis.Alloc[a] = al
			}
		}
	})
	s.m.db = verifKeyDB{s.m.db.(*ethdb.MemDatabase)}
	s.m.clusterConfig.EnableTransactionHistory = true
	return s
}

// The history of an account, and of a shard, lists every transaction and deposit of the
// chain that the shard follows, once, newest first, with what happened to it, whatever
// the size of the pages it is asked for in; a transaction of an abandoned block is gone.
//
//verif:harness V23 time=150 ttime=900 paths=50000 steps=400000000 reach=straight,fork,back
//verif:bounds two blocks of up to two transactions (thorough: three), each of 5 kinds (transfer, to itself, cross-shard, failing creation, another token), the second (or nothing) replaced by a longer fork with other or the same transactions, or undone by a heavier root chain; all page sizes
func VerifH_V23_Fork() {
	s := verifHistShard()
	s.addRoot(0, 0, big.NewInt(1<<20), 1)
	one := s.addMinor(0, 1, 1, s.histTx(verifsym.Choose("kind", 5), 0))
	var txs []*types.Transaction
	for i, n := 0, verifsym.Bound("txs", 2, 3); i < n; i++ {
		txs = append(txs, s.histTx(verifsym.Choose("kind2", 5), uint64(1+i)))
	}
	s.addMinor(one, 1, 2, txs...)
	switch verifsym.Choose("then", 4) {
	case 0:
		verifsym.Reach("straight")
	case 1: // a longer fork; the same transactions and more
		x := s.addMinor(one, 1, 3, txs[0])
		s.addMinor(x, 1, 4, txs[1])
		verifsym.Reach("fork")
	case 2: // a longer fork; another transaction in the same place
		x := s.addMinor(one, 1, 3, s.histTx(4, 1))
		s.addMinor(x, 1, 4)
	case 3: // a root chain on which none of the blocks is
		s.addRoot(0, -1, big.NewInt(1<<24), 5)
		verifsym.Assert(s.head == 0, "rolled back")
		verifsym.Reach("back")
	}
	s.checkHistory(s.verifHistory(nil), uint32(verifsym.U64r("limit", 1, 1<<32-1)))
}

// Deposits, from other shards and from the root chain.
//
//verif:harness V23 time=150 ttime=900 paths=50000 steps=400000000 reach=reward,noreward,position
//verif:bounds a chain of three blocks, the second delivering two deposits (of either token) from a neighbour and a reward from the root chain of any value in 2^56..2^64-1 and 2^65..2^70 (or none, or to another shard), with a transaction before and after; all page sizes, and all positions to continue from; the database is one in memory (the iterators of leveldb and rocksdb are outside)
func VerifH_V23_Deposits() {
	s := verifHistShard()
	s.addRoot(0, 0, big.NewInt(1<<20), 1)
	one := s.addMinor(0, 1, 1, s.histTx(0, 0))
	a := verifPlainDeposit(35760)
	b := verifPlainDeposit([]uint64{35760, 990}[verifsym.Choose("token", 2)])
	b.TxHash, b.Value.Value = common.Hash{2}, big.NewInt(7)
	h := &types.MinorBlockHeader{Number: 1, Branch: account.NewBranch(2 | 1), PrevRootBlockHash: s.roots[1].Hash(), CoinbaseAmount: types.NewEmptyTokenBalances(), Difficulty: big.NewInt(1), GasLimit: &serialize.Uint256{Value: big.NewInt(1)}}
	s.m.AddCrossShardTxListByMinorBlockHash(h.Hash(), types.CrossShardTransactionDepositList{TXList: []*types.CrossShardTransactionDeposit{a, b}})
	r := s.roots[1].Header().CreateBlockToAppend(nil, big.NewInt(1<<20), nil, nil, nil)
	r.AddMinorBlockHeader(s.minors[one].Header())
	r.AddMinorBlockHeader(h)
	reward := new(big.Int)
	switch verifsym.Choose("amount", 3) {
	case 1:
		reward = verifsym.Big("reward", new(big.Int).Lsh(big.NewInt(1), 65), new(big.Int).Lsh(big.NewInt(1), 70))
	case 2:
		reward = verifsym.Big("reward", big.NewInt(1<<56), verifU64)
	}
	to := account.Address{Recipient: verifAddr(2), FullShardKey: uint32(verifsym.Choose("other", 2))}
	r.Finalize(types.NewTokenBalancesWithMap(map[uint64]*big.Int{35760: reward}), &to, common.Hash{})
	if _, err := s.m.AddRootBlock(r); err != nil {
		verifsym.Assert(false, "honest root block refused: "+err.Error())
	}
	s.roots, s.conf, s.tip = append(s.roots, r), append(s.conf, one), 2
	two := s.addMinor(one, 2, 2, s.histTx(1, 1))
	s.addMinor(two, 2, 3, s.histTx(0, 2))
	root := verifDepositB(to.Recipient, to.Recipient, reward, new(big.Int), 0, 35760, 35760, nil, false)
	root.TxHash, root.IsFromRootChain, root.From, root.To = r.Hash(), true, to, to
	deps := []*types.CrossShardTransactionDeposit{root, a, b}
	if to.FullShardKey == 1 || reward.Sign() == 0 {
		verifsym.Reach("noreward")
		deps[0] = nil
	} else {
		verifsym.Reach("reward")
	}
	es := s.verifHistory(map[int][]*types.CrossShardTransactionDeposit{two: deps})
	if verifsym.Choose("from", 2) == 0 {
		s.checkHistory(es, uint32(verifsym.U64r("limit", 1, 1<<32-1)))
		return
	}
	verifsym.Reach("position")
	tail := verifsym.Bytes("position", 9)
	var want []verifEntry
	for _, e := range es {
		if e.all && bytes.Compare(e.key(), tail) <= 0 {
			want = append(want, e)
		}
	}
	got, _, err := s.m.GetAllTx(append(append([]byte{}, allTxKey...), tail...), 10)
	verifsym.Assert(err == nil && len(got) == len(want), "what is older than a position")
	for i, g := range got {
		verifSameDetail(g, want[i].d)
	}
}
