package core

//verif:common

import (
	"math/big"
	"time"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/consensus"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/serialize"
	"github.com/QuarkChain/goquarkchain/verifsym"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/ethdb"
)

func verifRootChain() (*RootBlockChain, *ethdb.MemDatabase, *types.RootBlock) {
	cfg := config.NewQuarkChainConfig()
	cfg.SkipRootCoinbaseCheck = true
	db := ethdb.NewMemDatabase()
	g := NewGenesis(cfg).MustCommitRootBlock(db)
	bc, err := NewRootBlockChain(db, cfg, new(consensus.FakeEngine))
	if err != nil {
		panic(err)
	}
	return bc, db, g
}

func verifRootChild(p *types.RootBlock, diff *big.Int, salt uint64, mh ...*types.MinorBlockHeader) *types.RootBlock {
	h := &types.RootBlockHeader{Number: p.Number() + 1, ParentHash: p.Hash(), Time: p.Time() + 10, Difficulty: diff, ToTalDifficulty: new(big.Int).Add(p.TotalDifficulty(), diff),
		CoinbaseAmount: types.NewEmptyTokenBalances(), Nonce: salt, Root: types.EmptyTrieHash}
	h.MinorHeaderHash = types.CalculateMerkleRoot(types.MinorBlockHeaders(mh))
	return types.NewRootBlockWithHeader(h).WithBody(mh, nil)
}

// verifShard is a shard chain together with everything it was given.
type verifShard struct {
	m      *MinorBlockChain
	key    []byte
	from   account.Address
	minors []*types.MinorBlock // [0] is genesis
	roots  []*types.RootBlock  // [0] is genesis
	conf   []int               // conf[r]: minor confirmed last by roots[0..r] on its chain, -1 if none
	head   int
	tip    int
}

func verifNewShard() *verifShard { return verifNewShardWith(func(*config.QuarkChainConfig) {}) }

func verifNewShardWith(f func(cfg *config.QuarkChainConfig)) *verifShard {
	key := common.FromHex("289c2857d4598e37fb9647507e47a309d6133539bf21a8b9cb6df88fd5232032")
	k, err := crypto.ToECDSA(key)
	if err != nil {
		panic(err)
	}
	acc := account.Address{Recipient: crypto.PubkeyToAddress(k.PublicKey), FullShardKey: 0}
	senderCacher = newTxSenderCacher(1) // the one made at start-up has no goroutines here
	q := uint64(100000000)
	env := setUp(&acc, &q, nil)
	f(env.clusterConfig.Quarkchain)
	m := verifShardState(env)
	return &verifShard{m: m, key: key, from: acc, minors: []*types.MinorBlock{m.CurrentBlock()}, roots: []*types.RootBlock{m.rootTip}, conf: []int{-1}}
}

func (s *verifShard) minorIdx(h common.Hash) int {
	for i, b := range s.minors {
		if b.Hash() == h {
			return i
		}
	}
	return -1
}

func (s *verifShard) rootIdx(h common.Hash) int {
	for i, b := range s.roots {
		if b.Hash() == h {
			return i
		}
	}
	return -1
}

// minorAncestor: is a an ancestor of (or the same as) b
func (s *verifShard) minorAncestor(a, b int) bool {
	for s.minors[b].NumberU64() > s.minors[a].NumberU64() {
		b = s.minorIdx(s.minors[b].ParentHash())
	}
	return a == b
}

func (s *verifShard) rootAncestor(a, b int) bool {
	for s.roots[b].NumberU64() > s.roots[a].NumberU64() {
		b = s.rootIdx(s.roots[b].ParentHash())
	}
	return a == b
}

func (s *verifShard) prevRoot(i int) int { return s.rootIdx(s.minors[i].PrevRootBlockHash()) }

func (s *verifShard) tx(nonce uint64, value int64) *types.Transaction {
	to := account.Address{Recipient: verifAddr(9), FullShardKey: 0}
	return createTransferTransaction(s.m, s.key, s.from, to, big.NewInt(value), nil, nil, &nonce, nil, nil, nil)
}

// addMinor appends a block to parent p seeing root block r, and returns its index.
func (s *verifShard) addMinor(p, r int, salt uint64, txs ...*types.Transaction) int {
	pr := s.roots[r].Hash()
	coinbase := account.Address{Recipient: verifAddr(5), FullShardKey: 0}
	b := s.minors[p].CreateBlockToAppend(nil, nil, &coinbase, &salt, nil, nil, nil, nil, &pr)
	for _, tx := range txs {
		b.AddTx(tx)
	}
	b, _, err := s.m.FinalizeAndAddBlock(b)
	if err != nil {
		verifsym.Assert(false, "honest minor block refused: "+err.Error())
	}
	s.minors = append(s.minors, b)
	n := len(s.minors) - 1
	// fork choice
	switch {
	case !s.rootAncestor(r, s.tip):
	case p == s.head:
		s.head = n
	case s.conf[s.tip] >= 0 && !s.minorAncestorStrict(s.conf[s.tip], n):
	case b.NumberU64() > s.minors[s.head].NumberU64(),
		b.NumberU64() == s.minors[s.head].NumberU64() && s.roots[r].NumberU64() > s.roots[s.prevRoot(s.head)].NumberU64():
		s.head = n
	}
	return n
}

func (s *verifShard) minorAncestorStrict(a, b int) bool { return a != b && s.minorAncestor(a, b) }

// addRoot appends a root block to p that confirms everything up to minor c (-1: nothing new).
func (s *verifShard) addRoot(p int, c int, d *big.Int, salt uint64) int {
	b := s.roots[p].Header().CreateBlockToAppend(nil, d, nil, &salt, nil)
	var list []int
	if c >= 0 {
		for i := c; i >= 0 && i != s.conf[p]; i = s.minorIdx(s.minors[i].ParentHash()) {
			list = append(list, i)
		}
	}
	for i := len(list) - 1; i >= 0; i-- {
		b.AddMinorBlockHeader(s.minors[list[i]].Header())
	}
	b.Finalize(nil, nil, common.Hash{})
	if _, err := s.m.AddRootBlock(b); err != nil {
		verifsym.Assert(false, "honest root block refused: "+err.Error())
	}
	s.roots = append(s.roots, b)
	n := len(s.roots) - 1
	if c < 0 {
		c = s.conf[p]
	}
	s.conf = append(s.conf, c)
	if b.TotalDifficulty().Cmp(s.roots[s.tip].TotalDifficulty()) > 0 {
		s.tip = n
		if c >= 0 && !s.minorAncestor(c, s.head) {
			s.head = c
		}
		for !s.rootAncestor(s.prevRoot(s.head), s.tip) {
			s.head = s.minorIdx(s.minors[s.head].ParentHash())
		}
	}
	return n
}


type verifMH struct {
	h      *types.MinorBlockHeader
	shard  uint32
	number uint64
	parent int // index of its parent, -1 if none
	prev   int // index of its root block, -1 if unknown
	ok     bool // handed over as validated
}

type verifRootSet struct {
	bc    *RootBlockChain
	roots []*types.RootBlock
	rp    []int
	conf  []map[uint32]int // last confirmed header per shard
	mh    []verifMH
}

func (s *verifRootSet) minor(shard uint32, parent, prev int, ok bool, salt uint64) int {
	x := verifMH{shard: shard, parent: parent, prev: prev, ok: ok}
	h := &types.MinorBlockHeader{Version: 0, Branch: account.Branch{Value: shard}, Coinbase: account.CreatEmptyAddress(shard),
		CoinbaseAmount: types.NewEmptyTokenBalances(), Difficulty: big.NewInt(1), Nonce: salt, Time: 2000}
	if parent >= 0 {
		h.Number = s.mh[parent].number + 1
		h.ParentHash = s.mh[parent].h.Hash()
	}
	h.PrevRootBlockHash = common.Hash{0xab}
	if prev >= 0 {
		h.PrevRootBlockHash = s.roots[prev].Hash()
	}
	if salt == 99 { // the one whose time is open
		h.Time = verifsym.U64r("minortime", 1000, 1<<40)
	}
	x.number, x.h = h.Number, h
	if ok {
		s.bc.AddValidatedMinorBlockHeader(h.Hash(), types.NewEmptyTokenBalances())
	}
	s.mh = append(s.mh, x)
	return len(s.mh) - 1
}

func (s *verifRootSet) block(p int, salt uint64, list ...int) *types.RootBlock {
	var hs []*types.MinorBlockHeader
	for _, i := range list {
		hs = append(hs, s.mh[i].h)
	}
	return verifRootChild(s.roots[p], big.NewInt(1000), salt, hs...)
}

func (s *verifRootSet) root(p int, salt uint64, list ...int) int {
	b := s.block(p, salt, list...)
	if _, err := s.bc.InsertChain([]types.IBlock{b}); err != nil {
		verifsym.Assert(false, "honest block refused: "+err.Error())
	}
	return s.note(b, p, list)
}

func (s *verifRootSet) note(b *types.RootBlock, p int, list []int) int {
	m := map[uint32]int{}
	if p >= 0 {
		for k, v := range s.conf[p] {
			m[k] = v
		}
	}
	for _, i := range list {
		m[s.mh[i].shard] = i
	}
	s.roots, s.rp, s.conf = append(s.roots, b), append(s.rp, p), append(s.conf, m)
	return len(s.roots) - 1
}


// settle lets the pool catch up with the head.
func (s *verifShard) settle() {
	for i := 0; i < 20; i++ {
		time.Sleep(time.Millisecond)
	}
}

// verifReady: a shard two blocks above genesis that has seen two root blocks; the
// second confirms a neighbour's block with one deposit. Roots 3 and 4 are on
// another root chain (4 on 3), and lighter.
func verifReady(f func(*config.QuarkChainConfig), dep *types.CrossShardTransactionDeposit) *verifShard {
	s := verifNewShardWith(f)
	s.addRoot(0, 0, big.NewInt(1<<20), 1)
	s.addMinor(0, 1, 1, s.tx(0, 5))
	s.addMinor(1, 1, 2)
	h := &types.MinorBlockHeader{Number: 1, Branch: account.NewBranch(2 | 1), PrevRootBlockHash: s.roots[1].Hash(), CoinbaseAmount: types.NewEmptyTokenBalances(), Difficulty: big.NewInt(1), GasLimit: &serialize.Uint256{Value: big.NewInt(1)}}
	s.m.AddCrossShardTxListByMinorBlockHash(h.Hash(), types.CrossShardTransactionDepositList{TXList: []*types.CrossShardTransactionDeposit{dep}})
	b := s.roots[1].Header().CreateBlockToAppend(nil, big.NewInt(1<<20), nil, nil, nil)
	b.AddMinorBlockHeader(s.minors[1].Header())
	b.AddMinorBlockHeader(h)
	b.Finalize(nil, nil, common.Hash{})
	if _, err := s.m.AddRootBlock(b); err != nil {
		verifsym.Assert(false, "honest root block refused: "+err.Error())
	}
	s.roots, s.conf, s.tip = append(s.roots, b), append(s.conf, 1), 2
	s.addRoot(0, -1, big.NewInt(1<<16), 3)
	s.addRoot(3, -1, big.NewInt(1<<16), 4)
	return s
}

func verifPlainDeposit(s uint64) *types.CrossShardTransactionDeposit {
	d := verifDepositB(verifAddr(7), verifAddr(2), big.NewInt(1000), big.NewInt(2), 0, s, s, nil, false)
	d.TxHash = common.Hash{1}
	return d
}


// addDeposit adds a root block that confirms minor c and a neighbour's block with the given deposits.
func (s *verifShard) addDeposit(c int, deps ...*types.CrossShardTransactionDeposit) {
	h := &types.MinorBlockHeader{Number: 1, Branch: account.NewBranch(2 | 1), PrevRootBlockHash: s.roots[1].Hash(), CoinbaseAmount: types.NewEmptyTokenBalances(), Difficulty: big.NewInt(1), GasLimit: &serialize.Uint256{Value: big.NewInt(1)}}
	s.m.AddCrossShardTxListByMinorBlockHash(h.Hash(), types.CrossShardTransactionDepositList{TXList: deps})
	b := s.roots[s.tip].Header().CreateBlockToAppend(nil, big.NewInt(1<<20), nil, nil, nil)
	b.AddMinorBlockHeader(s.minors[c].Header())
	b.AddMinorBlockHeader(h)
	b.Finalize(nil, nil, common.Hash{})
	if _, err := s.m.AddRootBlock(b); err != nil {
		verifsym.Assert(false, "honest root block refused: "+err.Error())
	}
	s.roots, s.conf, s.tip = append(s.roots, b), append(s.conf, c), len(s.roots)
}

// VerifMinorForks: a shard chain of n blocks after genesis that replaced a fork of two.
func VerifMinorForks(n int) (m *MinorBlockChain, chain, side []*types.MinorBlock) {
	s := verifNewShard()
	a := s.addMinor(0, 0, 9)
	b := s.addMinor(a, 0, 9)
	side = []*types.MinorBlock{s.minors[a], s.minors[b]}
	chain = s.minors[:1:1]
	for i, p := 0, 0; i < n; i++ {
		p = s.addMinor(p, 0, 1)
		chain = append(chain, s.minors[p])
	}
	return s.m, chain, side
}
