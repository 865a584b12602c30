package core

import (
	"math/big"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/core/rawdb"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/serialize"
	"github.com/QuarkChain/goquarkchain/verifsym"
	"github.com/ethereum/go-ethereum/common"
)

// Change any one thing in a block a shard would take and the shard refuses it,
// and stays where it was.
//
//verif:harness V16 time=200 ttime=600 paths=50000 steps=400000000 reach=honest,changed
//verif:bounds one honest block (a transfer, a cross-shard deposit) on a shard with two blocks; every field of header and meta changed, numeric ones to every other value (amounts below 2^62, gas below 2^40), hashes in one bit; transactions dropped, repeated, swapped or replaced; parent and root block replaced by every other known one and by an unknown one
func VerifH_V16_AnyChange() {
	verifsym.Feeds()
	s := verifReady(func(c *config.QuarkChainConfig) { c.SkipMinorDifficultyCheck = false }, verifPlainDeposit(35760))
	m := s.m
	s.settle()
	t0, t1 := s.tx(1, 6), s.tx(2, 7)
	for _, t := range []*types.Transaction{t0, t1} {
		if err := m.AddTx(t); err != nil {
			verifsym.Assert(false, "honest transaction refused: "+err.Error())
		}
	}
	coinbase := account.Address{Recipient: verifAddr(5), FullShardKey: 0}
	ts := m.CurrentBlock().Time() + 10
	b, err := m.CreateBlockToMine(&ts, &coinbase, nil, nil, nil)
	if err != nil {
		verifsym.Assert(false, "no block to mine: "+err.Error())
		return
	}
	verifsym.Assert(len(b.Transactions()) == 2 && b.Meta().CrossShardGasUsed.Value.Sign() > 0, "the block to mine has the pending transactions and the deposit")
	h, mt, txs := b.Header(), b.Meta(), append([]*types.Transaction{}, b.Transactions()...)
	other := func(name string, v *big.Int, hi *big.Int) *big.Int {
		x := verifBig(name, hi)
		verifsym.Assume(x.Cmp(v) != 0)
		return x
	}
	gas := big.NewInt(1<<40 - 1)
	u32 := func(v uint32) uint32 {
		x := verifsym.U32("u32")
		verifsym.Assume(x != v)
		return x
	}
	sealMeta := true
	k := verifsym.Choose("change", 30)
	switch k {
	case 0:
		h.Version = u32(0)
	case 1:
		h.Branch.Value = u32(h.Branch.Value)
	case 2:
		n := verifsym.U64("number")
		verifsym.Assume(n != h.Number)
		h.Number = n
	case 3:
		h.Coinbase.FullShardKey = []uint32{1, 3, 1 << 16, 1<<16 | 1}[verifsym.Choose("key", 4)]
	case 4: // the reward
		mp := b.CoinbaseAmount().GetBalanceMap()
		mp[35760] = other("amount", mp[35760], big.NewInt(1<<62-1))
		h.CoinbaseAmount = types.NewTokenBalancesWithMap(mp)
	case 5: // a reward in another token
		mp := b.CoinbaseAmount().GetBalanceMap()
		mp[77] = big.NewInt(3)
		h.CoinbaseAmount = types.NewTokenBalancesWithMap(mp)
	case 6:
		h.CoinbaseAmount = types.NewEmptyTokenBalances()
	case 7:
		h.ParentHash = []common.Hash{s.minors[0].Hash(), s.minors[1].Hash(), {7}}[verifsym.Choose("parent", 3)]
	case 8:
		h.PrevRootBlockHash = []common.Hash{s.roots[0].Hash(), s.roots[1].Hash(), s.roots[3].Hash(), s.roots[4].Hash(), {7}}[verifsym.Choose("root", 5)]
	case 9:
		h.GasLimit = &serialize.Uint256{Value: other("gaslimit", h.GasLimit.Value, gas)}
	case 10:
		h.MetaHash[5] ^= 1
		sealMeta = false
	case 11:
		h.Time = verifsym.U64r("time", 0, m.CurrentBlock().Time())
	case 12:
		h.Time = verifsym.U64r("time", 1<<40, 1<<63)
	case 13:
		h.Difficulty = other("difficulty", h.Difficulty, big.NewInt(1<<40))
	case 14:
		h.Bloom[verifsym.Choose("byte", 2)*100] ^= 1
	case 15:
		h.Extra = make([]byte, int(m.clusterConfig.Quarkchain.BlockExtraDataSizeLimit)+1)
	case 16:
		mt.TxHash[9] ^= 1
	case 17:
		mt.Root[9] ^= 1
	case 18:
		mt.ReceiptHash[9] ^= 1
	case 19:
		mt.GasUsed = &serialize.Uint256{Value: other("gasused", mt.GasUsed.Value, gas)}
	case 20:
		mt.CrossShardGasUsed = &serialize.Uint256{Value: other("xgasused", mt.CrossShardGasUsed.Value, gas)}
	case 21:
		mt.XShardGasLimit = &serialize.Uint256{Value: other("xgaslimit", mt.XShardGasLimit.Value, gas)}
	case 22, 23, 24:
		c := *mt.XShardTxCursorInfo
		f := []*uint64{&c.RootBlockHeight, &c.MinorBlockIndex, &c.XShardDepositIndex}[k-22]
		n := verifsym.U64("cursor")
		verifsym.Assume(n != *f)
		*f = n
		mt.XShardTxCursorInfo = &c
	case 25:
		txs = txs[:1]
		mt.TxHash = types.CalculateMerkleRoot(types.Transactions(txs))
	case 26:
		txs[0], txs[1] = txs[1], txs[0]
		mt.TxHash = types.CalculateMerkleRoot(types.Transactions(txs))
	case 27:
		txs[1] = txs[0]
		mt.TxHash = types.CalculateMerkleRoot(types.Transactions(txs))
	case 28:
		txs[1] = s.tx(2, 8)
		mt.TxHash = types.CalculateMerkleRoot(types.Transactions(txs))
	case 29:
		// none
	}
	if sealMeta {
		h.MetaHash = mt.Hash()
	}
	x := types.NewMinorBlockWithHeader(h, mt).WithBody(txs, nil)
	head, root := m.CurrentBlock().Hash(), m.currentEvmState.IntermediateRoot(true)
	_, err = m.InsertChain([]types.IBlock{x}, false)
	if k == 29 {
		if err != nil {
			verifsym.Assert(false, "the block the shard made was refused: "+err.Error())
		}
		verifsym.Assert(m.CurrentBlock().Hash() == b.Hash(), "the block the shard made is its head")
		verifsym.Reach("honest")
		return
	}
	verifsym.Reach("changed")
	verifsym.Assert(err != nil, "a block that was tampered with was taken")
	verifsym.Assert(m.CurrentBlock().Hash() == head && rawdb.ReadHeadBlockHash(m.db) == head, "head after a refused block")
	verifsym.Assert(m.currentEvmState.IntermediateRoot(true) == root, "state after a refused block")
	verifsym.Assert(m.GetBlockByNumber(3) == nil, "a refused block got a height")
	_, err = m.InsertChain([]types.IBlock{b}, false)
	if err != nil {
		verifsym.Assert(false, "the honest block was refused after the other: "+err.Error())
	}
}

// Wherever a miner puts a block - on any known block, seeing any known root
// block - the shard takes it if and only if the root block is on the chain of
// the one its parent saw, no earlier, and the parent is on the chain that root
// block confirmed.
//
//verif:harness V16 time=200 ttime=600 paths=50000 steps=400000000 reach=taken,older,forked,unconfirmed
//verif:bounds 7 minor blocks in 3 forks, 7 root blocks in 3 forks that confirm different ones of them; the new block on any of them with any root block; all difficulties of the two last root blocks in 2^16..2^18-1
func VerifH_V16_Placement() {
	s := verifNewShard()
	d := big.NewInt(1 << 17)
	d1, d2 := verifsym.Big("d1", big.NewInt(1<<16), big.NewInt(1<<18-1)), verifsym.Big("d2", big.NewInt(1<<16), big.NewInt(1<<18-1))
	m1 := s.addMinor(0, 0, 1, s.tx(0, 5))
	m2 := s.addMinor(m1, 0, 2)
	r1 := s.addRoot(0, m1, d, 1)
	r2 := s.addRoot(0, -1, d, 2)
	s.addMinor(m1, r1, 3) // a fork above the confirmed block
	s.addMinor(0, r2, 4)  // one beside it
	r3 := s.addRoot(r1, m2, d, 3)
	s.addMinor(m2, r3, 5, s.tx(1, 6))
	r4 := s.addRoot(r2, m2, d1, 4)
	s.addMinor(m2, r1, 6)
	s.addRoot(r4, -1, d2, 5)
	s.addRoot(r1, -1, d, 6)
	p, r := verifsym.Choose("parent", len(s.minors)), verifsym.Choose("root", len(s.roots))
	old := s.prevRoot(p)
	ok := true
	if !s.rootAncestor(old, r) {
		ok = false
		if s.rootAncestor(r, old) {
			verifsym.Reach("older")
		} else {
			verifsym.Reach("forked")
		}
	}
	if s.conf[r] >= 0 && !s.minorAncestor(s.conf[r], p) {
		verifsym.Reach("unconfirmed")
		ok = false
	}
	pr := s.roots[r].Hash()
	coinbase := account.Address{Recipient: verifAddr(5), FullShardKey: 0}
	salt := uint64(77)
	b := s.minors[p].CreateBlockToAppend(nil, nil, &coinbase, &salt, nil, nil, nil, nil, &pr)
	head := s.m.CurrentBlock().Hash()
	b, _, err := s.m.FinalizeAndAddBlock(b)
	if err != nil {
		verifsym.Assert(!ok, "a well placed block was refused: "+err.Error())
		verifsym.Assert(s.m.CurrentBlock().Hash() == head, "head after a refused block")
		return
	}
	verifsym.Reach("taken")
	verifsym.Assert(ok, "a misplaced block was taken")
	verifsym.Assert(s.m.GetMinorBlock(b.Hash()) != nil, "a block that was taken is there")
}
