package core

import (
	"bytes"
	"math/big"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/core/vm"
	qrpc "github.com/QuarkChain/goquarkchain/rpc"
	"github.com/QuarkChain/goquarkchain/serialize"
	"github.com/QuarkChain/goquarkchain/verifsym"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
)

func verifTopic(b byte) (h common.Hash) { h[31] = b; return }

// verifLogCode: code that logs what is listed (each log its topics), then stops or reverts
func verifLogCode(revert bool, logs ...[]byte) (c []byte) {
	for _, l := range logs {
		for i := len(l) - 1; i >= 0; i-- {
			c = append(c, 0x60, l[i])
		}
		c = append(c, 0x60, byte(len(l)), 0x60, 0, 0xa0+byte(len(l))) // as many bytes of data
	}
	if revert {
		return append(c, 0x60, 0, 0x60, 0, 0xfd)
	}
	return append(c, 0)
}

var verifLogKinds = [][][]byte{{{1}}, {{2, 1}}, {{}, {3}, {1}}, {}, {{1, 2, 3, 4}}, {{1}, {2}}}

const verifRevertKind = 5

var verifDepositHash = common.Hash{1, 2, 3}

func (s *verifShard) logTx(kind int, nonce uint64) *types.Transaction {
	k, _ := crypto.ToECDSA(s.key)
	t := types.NewEvmContractCreation(nonce, new(big.Int), 100000, big.NewInt(1), 0, 0, 3, 0, verifLogCode(kind == verifRevertKind, verifLogKinds[kind]...), s.m.GetGenesisToken(), s.m.GetGenesisToken())
	t, err := types.SignTx(t, types.MakeSigner(3), k)
	if err != nil {
		panic(err)
	}
	return transEvmTxToTx(t)
}

type verifLogged struct {
	addr   common.Address
	topics []byte
	height uint64
	block  common.Hash
	tx     common.Hash
}

func (s *verifShard) logged(i int, tx common.Hash, addr common.Address, kind int) (ls []verifLogged) {
	if kind == verifRevertKind {
		return
	}
	for _, l := range verifLogKinds[kind] {
		ls = append(ls, verifLogged{addr, l, s.minors[i].NumberU64(), s.minors[i].Hash(), tx})
	}
	return
}

// verifLogChain builds a chain of four blocks (and two abandoned ones) whose transactions and
// one deposit log something, and says what.
func verifLogChain() (*verifShard, []verifLogged) {
	s := verifNewShardWith(func(c *config.QuarkChainConfig) { c.EnableEvmTimeStamp = 0 })
	s.addRoot(0, 0, big.NewInt(1<<20), 1)
	addr := func(nonce uint64) common.Address {
		k := uint32(0)
		return vm.CreateAddress(s.from.Recipient, &k, nonce)
	}
	k0, k1, k2, k3 := []int{0, verifRevertKind, 2, 1, 3, 4}[verifsym.Choose("kind0", verifsym.Bound("kinds", 2, 6))], 2, 4, 1
	one := s.addMinor(0, 1, 1, s.logTx(k0, 0), s.logTx(1, 1))
	if verifsym.Choose("fork", 2) == 1 { // abandoned later
		x := s.addMinor(one, 1, 2, s.logTx(0, 2))
		s.addMinor(x, 1, 3, s.logTx(5, 3))
	}
	dep := verifPlainDeposit(35760)
	dep.TxHash = verifDepositHash
	dep.Value.Value, dep.GasRemained.Value, dep.CreateContract = new(big.Int), big.NewInt(200000), true
	dep.To.Recipient, dep.MessageData = verifAddr(77), verifLogCode(false, verifLogKinds[k3]...)
	h := &types.MinorBlockHeader{Number: 1, Branch: account.NewBranch(2 | 1), PrevRootBlockHash: s.roots[1].Hash(), CoinbaseAmount: types.NewEmptyTokenBalances(), Difficulty: big.NewInt(1), GasLimit: &serialize.Uint256{Value: big.NewInt(1)}}
	s.m.AddCrossShardTxListByMinorBlockHash(h.Hash(), types.CrossShardTransactionDepositList{TXList: []*types.CrossShardTransactionDeposit{dep}})
	b := s.roots[1].Header().CreateBlockToAppend(nil, big.NewInt(1<<20), nil, nil, nil)
	b.AddMinorBlockHeader(s.minors[one].Header())
	b.AddMinorBlockHeader(h)
	b.Finalize(nil, nil, common.Hash{})
	if _, err := s.m.AddRootBlock(b); err != nil {
		verifsym.Assert(false, "honest root block refused: "+err.Error())
	}
	s.roots, s.conf, s.tip = append(s.roots, b), append(s.conf, one), 2
	two := s.addMinor(one, 2, 4, s.logTx(k1, 2))
	three := s.addMinor(two, 2, 5)
	four := s.addMinor(three, 2, 6, s.logTx(verifRevertKind, 3), s.logTx(k2, 4))
	verifsym.Assert(s.m.CurrentBlock().Hash() == s.minors[four].Hash(), "head")
	var ls []verifLogged
	tx := func(i, k int) common.Hash { return s.minors[i].Transactions()[k].Hash() }
	ls = append(ls, s.logged(one, tx(one, 0), addr(0), k0)...)
	ls = append(ls, s.logged(one, tx(one, 1), addr(1), 1)...)
	ls = append(ls, s.logged(two, tx(two, 0), addr(2), k1)...)
	ls = append(ls, s.logged(two, dep.TxHash, verifAddr(77), k3)...) // receipts of deposits come last
	ls = append(ls, s.logged(four, tx(four, 1), addr(4), k2)...)
	return s, ls
}

func (s *verifShard) checkLogs(ls []verifLogged, from, to uint64, addrs []common.Address, topics [][]common.Hash) {
	var q qrpc.FilterQuery
	q.FromBlock, q.ToBlock, q.Addresses, q.Topics = new(big.Int).SetUint64(from), new(big.Int).SetUint64(to), addrs, topics
	got, err := s.m.GetLogsByFilterQuery(&q)
	if to > 4 && from <= to {
		verifsym.Assert(err != nil, "a range beyond the chain")
		return
	}
	verifsym.Assert(err == nil, "a query within the chain is answered")
	type pos struct {
		h uint64
		i uint32
	}
	n, index := 0, map[pos]bool{}
	for _, l := range ls {
		ok := l.height >= from && l.height <= to && (len(addrs) == 0 || includes(addrs, l.addr)) && len(topics) <= len(l.topics)
		for i := 0; ok && i < len(topics); i++ {
			m := len(topics[i]) == 0
			for _, t := range topics[i] {
				m = m || t == verifTopic(l.topics[i])
			}
			ok = m
		}
		if !ok {
			continue
		}
		verifsym.Assert(n < len(got), "a log that matches is left out")
		g := got[n]
		n++
		verifsym.Assert(g.Recipient == l.addr && g.BlockNumber == l.height && len(g.Topics) == len(l.topics) && bytes.Equal(g.Data, make([]byte, len(l.topics))), "the logs are those of the chain, in order")
		for i, t := range g.Topics {
			verifsym.Assert(t == verifTopic(l.topics[i]), "topics")
		}
		verifsym.Assert(g.TxHash == l.tx, "log's transaction")
		verifsym.Assert(g.BlockHash == l.block, "log's block")
		verifsym.Assert(!index[pos{l.height, g.Index}], "two logs of a block have one number")
		index[pos{l.height, g.Index}] = true
		verifsym.Assert(!g.Removed, "a log of the chain is not a removed one")
		if b := s.m.GetBlockByNumber(l.height).(*types.MinorBlock); l.tx != verifDepositHash {
			verifsym.Assert(b.Transactions()[g.TxIndex].Hash() == l.tx, "position of the transaction")
		}
	}
	verifsym.Assert(n == len(got), "a log that does not match is listed")
}

// A log query answers exactly the logs on the chain that match it.
//
//verif:harness V24 time=120 ttime=600 paths=50000 steps=400000000 reach=full,one
//verif:bounds four blocks (and optionally an abandoned fork) with seven logs of 0 to 4 topics by four contracts, one of them by a deposit; three (thorough: six) lists of up to two addresses, up to two (thorough: three) positions of three (thorough: five) lists of up to two topics, logged ones and others; every combination of those
func VerifH_V24_Match() {
	s, ls := verifLogChain()
	k := uint32(0)
	a, b, z := vm.CreateAddress(s.from.Recipient, &k, 2), verifAddr(77), verifAddr(99)
	addrs := [][]common.Address{nil, {z, a}, {b}, {a, b}, {a}, {z}}[verifsym.Choose("addresses", verifsym.Bound("addresses", 3, 6))]
	var topics [][]common.Hash
	for i, n := 0, verifsym.Choose("positions", verifsym.Bound("positions", 3, 4)); i < n; i++ {
		topics = append(topics, [][]common.Hash{nil, {verifTopic(2)}, {verifTopic(9), verifTopic(1)}, {verifTopic(1)}, {verifTopic(9)}}[verifsym.Choose("topics", verifsym.Bound("topics", 3, 5))])
	}
	from, to := uint64(0), uint64(4)
	if verifsym.Choose("range", 2) == 1 {
		from = 2
		to = 2
		verifsym.Reach("one")
	} else {
		verifsym.Reach("full")
	}
	s.checkLogs(ls, from, to, addrs, topics)
}

// The same for every range of blocks.
//
//verif:harness V24 time=120 ttime=600 paths=50000 steps=400000000
//verif:bounds the same chain; all ranges of heights (64 bits), within, beyond and around it; four queries
func VerifH_V24_Range() {
	s, ls := verifLogChain()
	from, to := verifsym.U64("from"), verifsym.U64("to")
	switch verifsym.Choose("query", 4) {
	case 0:
		s.checkLogs(ls, from, to, nil, nil)
	case 1:
		s.checkLogs(ls, from, to, []common.Address{verifAddr(77)}, nil)
	case 2:
		s.checkLogs(ls, from, to, nil, [][]common.Hash{{verifTopic(1)}})
	case 3:
		s.checkLogs(ls, from, to, nil, [][]common.Hash{nil, {verifTopic(1), verifTopic(2)}})
	}
}

// Logs are filtered by what a query says and nothing else, whatever their contents.
//
//verif:harness V24 time=60 ttime=600 paths=50000 steps=400000000 reach=kept,dropped
//verif:bounds three logs with up to two topics, whatever their contract (its first and last byte), topics (likewise) and height (64 bits); queries with up to two addresses, up to two positions of up to two topics, and bounds of up to 63 bits
func VerifH_V24_Filter() {
	hash := func(n string) (h common.Hash) {
		h[0], h[31] = verifsym.U8(n+"0"), verifsym.U8(n+"31")
		return
	}
	addr := func(n string) (a common.Address) {
		a[0], a[19] = verifsym.U8(n+"0"), verifsym.U8(n+"19")
		return
	}
	var logs []*types.Log
	for i, n := range []string{"a", "b", "c"} {
		l := &types.Log{Recipient: addr(n + "addr"), BlockNumber: verifsym.U64(n + "height"), Index: uint32(i)}
		for j, m := 0, []int{2, 1, 0}[i]; j < m; j++ {
			l.Topics = append(l.Topics, hash(n+[]string{"t", "u"}[j]))
		}
		logs = append(logs, l)
	}
	var addrs []common.Address
	for i, n := 0, verifsym.Choose("addresses", 3); i < n; i++ {
		addrs = append(addrs, addr([]string{"qa", "qb"}[i]))
	}
	var topics [][]common.Hash
	for i, n := 0, verifsym.Choose("positions", 3); i < n; i++ {
		var l []common.Hash
		for j, m := 0, verifsym.Choose("topics", verifsym.Bound("topics per position", 2, 3)); j < m; j++ {
			l = append(l, hash("q"+[]string{"t", "u"}[i]+[]string{"x", "y"}[j]))
		}
		topics = append(topics, l)
	}
	var from, to *big.Int
	if verifsym.Choose("bounded", 2) == 1 {
		from, to = new(big.Int).SetUint64(verifsym.U64r("from", 0, 1<<63-1)), new(big.Int).SetUint64(verifsym.U64r("to", 0, 1<<63-1))
	}
	got, n := FilterLogs(logs, from, to, addrs, topics), 0
	for _, l := range logs {
		want := len(topics) <= len(l.Topics)
		if from != nil {
			want = verifsym.And(want, verifsym.And(from.Uint64() <= l.BlockNumber, l.BlockNumber <= to.Uint64()))
		}
		in := len(addrs) == 0
		for _, a := range addrs {
			in = verifsym.Or(in, verifsym.And(a[0] == l.Recipient[0], a[19] == l.Recipient[19]))
		}
		want = verifsym.And(want, in)
		for i := 0; i < len(topics) && i < len(l.Topics); i++ {
			in = len(topics[i]) == 0
			for _, t := range topics[i] {
				in = verifsym.Or(in, verifsym.And(t[0] == l.Topics[i][0], t[31] == l.Topics[i][31]))
			}
			want = verifsym.And(want, in)
		}
		if n < len(got) && got[n] == l {
			n++
			verifsym.Reach("kept")
			verifsym.Assert(want, "a log that does not match is listed")
		} else {
			verifsym.Reach("dropped")
			verifsym.Assert(!want, "a log that matches is left out")
		}
	}
	verifsym.Assert(n == len(got), "the matching logs, in order")
}
