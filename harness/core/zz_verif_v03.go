package core

import (
	"math/big"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/serialize"
	"github.com/QuarkChain/goquarkchain/verifsym"
	"github.com/ethereum/go-ethereum/common"
)

// verifFakeBC is the cursor's view of a shard: a root chain and the deposit lists received.
type verifFakeBC struct {
	branch  account.Branch
	genesis uint32
	roots   []*types.RootBlock // roots[i].Number()==i
	byHash  map[common.Hash]*types.RootBlock
	lists   map[common.Hash]*types.CrossShardTransactionDepositList
	near    map[uint32]bool
	mode    int // 0: fixed neighbourhood; 1: neighbours up to root height 2 only; 2: from root height 3 only
}

func (f *verifFakeBC) GetGenesisToken() uint64      { return 35760 }
func (f *verifFakeBC) GetBranch() account.Branch    { return f.branch }
func (f *verifFakeBC) GetGenesisRootHeight() uint32 { return f.genesis }
func (f *verifFakeBC) GetRootBlockByHash(h common.Hash) *types.RootBlock {
	return f.byHash[h]
}
func (f *verifFakeBC) GetRootBlockByHeight(h common.Hash, height uint64) *types.RootBlock {
	b := f.byHash[h]
	if b == nil || height > b.NumberU64() {
		return nil
	}
	return f.roots[height]
}
func (f *verifFakeBC) ReadCrossShardTxList(h common.Hash) *types.CrossShardTransactionDepositList {
	return f.lists[h]
}
func (f *verifFakeBC) isNeighbor(b account.Branch, h *uint32) bool {
	switch f.mode {
	case 1:
		return f.near[b.Value] && *h <= 2
	case 2:
		return f.near[b.Value] && *h >= 3
	}
	return f.near[b.Value]
}

// Every deposit confirmed by the root chain is delivered exactly once, in root-chain
// order, however the stream is cut into blocks and however the root chain grows.
//verif:harness V03 time=180 ttime=600 paths=400000 reach=resume,eof,grow
//verif:bounds root chain of 2 (thorough 3) blocks after the shard's genesis root block, the last ones with 0-2 minor headers from {own shard, neighbour, neighbour pre-genesis, non-neighbour}, 0-2 deposits each, coinbase in or out of the shard; neighbourhood fixed, or shrinking or growing with root height (then one header in the second root block and one more, empty, root block); arbitrary stop points; root tip seen by the shard grows at arbitrary times
func VerifH_V03_Cursor() {
	nRoot := verifsym.Bound("roots", 2, 3)
	self := account.NewBranch(2 | 0)
	f := &verifFakeBC{branch: self, genesis: 0, byHash: map[common.Hash]*types.RootBlock{}, lists: map[common.Hash]*types.CrossShardTransactionDepositList{},
		near: map[uint32]bool{2 | 1: true, 1<<16 | 2: false}}
	f.mode = verifsym.Choose("neighbourhood", 3)
	empty := 0
	if f.mode > 0 {
		nRoot, empty = 3, 3
	}
	g := types.NewRootBlock(&types.RootBlockHeader{Number: 0, Difficulty: big.NewInt(1), ToTalDifficulty: big.NewInt(1), CoinbaseAmount: types.NewEmptyTokenBalances()}, nil, nil)
	f.roots = append(f.roots, g)
	f.byHash[g.Hash()] = g
	type item struct {
		dep  *types.CrossShardTransactionDeposit // nil: root coinbase
		root *types.RootBlock
	}
	var want []item
	ends := []int{0} // ends[i]: number of items of root blocks ≤ i
	prev := g
	seq := 0
	for r := 1; r <= nRoot; r++ {
		var hs types.MinorBlockHeaders
		n := 2
		if r == 1 {
			n = 1
		} else if r == empty {
			n = 0
		} else if f.mode > 0 {
			n = 1
		} else {
			n = verifsym.Choose("headers", 3)
		}
		var items []item
		for i := 0; i < n; i++ {
			seq++
			h := &types.MinorBlockHeader{Number: uint64(seq), CoinbaseAmount: types.NewEmptyTokenBalances(), Difficulty: big.NewInt(1), GasLimit: &serialize.Uint256{Value: big.NewInt(1)}, PrevRootBlockHash: prev.Hash()}
			deliver, hasList := false, false
			switch verifKind03(r, i) {
			case 0:
				h.Branch = self
			case 1:
				h.Branch = account.NewBranch(2 | 1)
				hasList = r > 1
				deliver = r > 1 && f.mode != 2
			case 2:
				h.Branch = account.NewBranch(2 | 1)
				h.PrevRootBlockHash = g.Hash()
			case 3:
				h.Branch = account.NewBranch(1<<16 | 2)
			}
			if hasList {
				l := &types.CrossShardTransactionDepositList{}
				k := verifsym.Choose("deposits", 3)
				for j := 0; j < k; j++ {
					d := verifDeposit03(byte(r), byte(i), byte(j))
					l.TXList = append(l.TXList, d)
					if deliver {
						items = append(items, item{dep: d})
					}
				}
				f.lists[h.Hash()] = l
			}
			hs = append(hs, h)
		}
		cbKey := uint32(r & 1)
		if r == 2 && f.mode == 0 {
			cbKey = uint32(verifsym.Choose("coinbaseShard", 2))
		}
		amt := types.NewTokenBalancesWithMap(map[uint64]*big.Int{35760: big.NewInt(int64(1000 + r)), 77: big.NewInt(5)})
		rb := types.NewRootBlock(&types.RootBlockHeader{Number: uint32(r), ParentHash: prev.Hash(), Time: uint64(r), Difficulty: big.NewInt(1), ToTalDifficulty: big.NewInt(int64(r + 1)),
			Coinbase: account.Address{Recipient: verifAddr(byte(r)), FullShardKey: cbKey}, CoinbaseAmount: amt}, hs, nil)
		f.roots = append(f.roots, rb)
		f.byHash[rb.Hash()] = rb
		want = append(want, item{root: rb})
		want = append(want, items...)
		ends = append(ends, len(want))
		prev = rb
	}
	// start as a shard's genesis does: nothing consumed, next root block is genesis+1
	info := &types.XShardTxCursorInfo{RootBlockHeight: 1, MinorBlockIndex: 0, XShardDepositIndex: 0}
	tip := 0
	got := 0
	for round := 0; got < len(want); round++ {
		for tip < nRoot && (ends[tip] <= got && round > 1 || verifsym.Bool("grow")) {
			tip++
			verifsym.Reach("grow")
		}
		mb := types.NewMinorBlock(&types.MinorBlockHeader{Branch: self, PrevRootBlockHash: f.roots[tip].Hash(), CoinbaseAmount: types.NewEmptyTokenBalances(), Difficulty: big.NewInt(1), GasLimit: &serialize.Uint256{Value: big.NewInt(1)}},
			&types.MinorBlockMeta{GasUsed: &serialize.Uint256{Value: new(big.Int)}, CrossShardGasUsed: &serialize.Uint256{Value: new(big.Int)}, XShardGasLimit: &serialize.Uint256{Value: new(big.Int)}, XShardTxCursorInfo: info}, nil, nil, nil)
		c := NewXShardTxCursor(f, mb, info)
		start := got
		for {
			d, err := c.getNextTx()
			verifsym.Assert(err == nil, "cursor failed on a well-formed root chain")
			if d == nil {
				verifsym.Reach("eof")
				verifsym.Assert(got == ends[tip], "cursor reported the end before every confirmed deposit was delivered")
				break
			}
			verifsym.Assert(got < ends[tip], "cursor delivered a deposit that is not confirmed (or delivered one twice)")
			w := want[got]
			if w.dep != nil {
				verifsym.Assert(d == w.dep || d.TxHash == w.dep.TxHash, "deposit out of order, lost or duplicated")
			} else {
				amt := new(big.Int)
				if w.root.Coinbase().FullShardKey == 0 {
					amt = w.root.CoinbaseAmount().GetTokenBalance(35760)
				}
				verifsym.Assert(d.IsFromRootChain && d.TxHash == w.root.Hash() && d.To == w.root.Coinbase() && d.From == w.root.Coinbase() && d.Value.Value.Cmp(amt) == 0 &&
					d.GasPrice.Value.Sign() == 0 && d.GasRemained.Value.Sign() == 0 && d.TransferTokenID == 35760 && d.GasTokenID == 35760 && !d.CreateContract && d.RefundRate == 100, "root-chain coinbase deposit")
			}
			got++
			if verifsym.Bool("stop") {
				verifsym.Reach("resume")
				break
			}
		}
		ni := c.getCursorInfo()
		info = &types.XShardTxCursorInfo{RootBlockHeight: ni.RootBlockHeight, MinorBlockIndex: ni.MinorBlockIndex, XShardDepositIndex: ni.XShardDepositIndex}
		_ = start
	}
}

// the first root block holds one pre-genesis neighbour block (it can never carry deposits)
func verifKind03(r, i int) int {
	if r == 1 {
		return 2
	}
	return verifsym.Choose("kind", 4)
}

func verifDeposit03(r, i, j byte) *types.CrossShardTransactionDeposit {
	d := verifDepositB(verifAddr(1), verifAddr(2), big.NewInt(1), big.NewInt(1), 0, 35760, 35760, nil, false)
	d.TxHash = common.Hash{1, r, i, j}
	return d
}

// The same guarantee through the real shard chain: deposits received from a
// neighbour are applied once, in order, a block stops only when its cross-shard
// gas limit is used up, and the cursor stored in the block resumes exactly there.
//verif:harness V03 time=240 reach=all,partial,validated
//verif:bounds real MinorBlockChain over an in-memory database; 2 root blocks, 2 neighbour blocks with 0-2 deposits each (concrete amounts), symbolic cross-shard gas limit of the first block (≤ 2^40), two consecutive blocks
func VerifH_V03_Chain() {
	acc := account.Address{Recipient: verifAddr(1)}
	q := uint64(10000000)
	env := setUp(&acc, &q, nil)
	m := verifShardState(env)
	tokn := m.GetGenesisToken()
	root1 := m.rootTip.Header().CreateBlockToAppend(nil, nil, nil, nil, nil)
	root1.AddMinorBlockHeader(m.CurrentBlock().Header())
	root1.Finalize(nil, nil, common.Hash{})
	_, err := m.AddRootBlock(root1)
	verifsym.Assert(err == nil, "valid root block refused by the shard")
	peer := account.NewBranch(2 | 1)
	root2 := m.rootTip.Header().CreateBlockToAppend(nil, nil, nil, nil, nil)
	var want []*types.CrossShardTransactionDeposit
	for i := 0; i < 2; i++ {
		h := &types.MinorBlockHeader{Number: uint64(i + 1), Branch: peer, PrevRootBlockHash: root1.Hash(), CoinbaseAmount: types.NewEmptyTokenBalances(), Difficulty: big.NewInt(1), GasLimit: &serialize.Uint256{Value: big.NewInt(1)}}
		l := types.CrossShardTransactionDepositList{}
		k := verifsym.Choose("deposits", 3)
		for j := 0; j < k; j++ {
			d := verifDepositB(verifAddr(7), verifAddr(2), big.NewInt(int64(1000+100*i+j)), big.NewInt(2), 0, tokn, tokn, nil, false)
			d.TxHash = common.Hash{1, byte(i), byte(j)}
			d.IsFromRootChain = false
			l.TXList = append(l.TXList, d)
			want = append(want, d)
		}
		m.AddCrossShardTxListByMinorBlockHash(h.Hash(), l)
		root2.AddMinorBlockHeader(h)
	}
	root2.Finalize(nil, nil, common.Hash{})
	_, err = m.AddRootBlock(root2)
	verifsym.Assert(err == nil, "root block with known deposits refused by the shard")

	miner := account.Address{Recipient: verifAddr(9)}
	limit := verifsym.U64r("xshardGasLimit", 0, 1<<40)
	tip := m.rootTip.Hash()
	ts := m.CurrentBlock().Time() + 10
	blk := m.CurrentBlock().CreateBlockToAppend(&ts, nil, &miner, nil, big.NewInt(12000000), new(big.Int).SetUint64(limit), nil, nil, &tip)
	st, err := m.getEvmStateForNewBlock(blk, true)
	verifsym.Assert(err == nil, "state of the tip unavailable")
	list, info, receipts, err := m.RunCrossShardTxWithCursor(st, blk)
	verifsym.Assert(err == nil && info != nil, "deposits could not be applied")
	_ = receipts
	// stream: coinbase(root0), coinbase(root1), coinbase(root2), deposits...
	n := len(list)
	total := len(want) + 3
	verifsym.Assert(n >= 1 && n <= total, "number of delivered deposits")
	gas := uint64(0)
	for i, d := range list {
		if i < 3 {
			verifsym.Assert(d.IsFromRootChain && d.TxHash == []common.Hash{root1.ParentHash(), root1.Hash(), root2.Hash()}[i], "root coinbase deposit order")
		} else {
			verifsym.Assert(!d.IsFromRootChain && d.TxHash == want[i-3].TxHash && d.Value.Value.Cmp(want[i-3].Value.Value) == 0, "deposit order")
			gas += 9000
		}
		if i+1 < n {
			verifsym.Assert(gas < limit, "a block kept applying deposits past its cross-shard gas limit")
		}
	}
	verifsym.Assert(st.GetXShardReceiveGasUsed().Uint64() == gas && st.GetGasUsed().Uint64() == gas, "cross-shard gas accounting")
	verifsym.Assert(n == total || gas >= limit, "a block stopped early although deposits and gas were left")
	sum := new(big.Int)
	for i := 3; i < n; i++ {
		sum.Add(sum, want[i-3].Value.Value)
	}
	verifsym.Assert(st.GetBalance(verifAddr(2), tokn).Cmp(sum) == 0, "recipient balance after the first block")
	if n == total {
		verifsym.Reach("all")
	} else {
		verifsym.Reach("partial")
	}
	if gas == 0 && n < total {
		return
	}
	// persist a block that stops at the same place, then drain the rest
	lim := m.xShardGasLimit
	if n < total {
		lim = new(big.Int).SetUint64(gas)
	}
	old := m.xShardGasLimit
	m.xShardGasLimit = lim
	b1 := m.CurrentBlock().CreateBlockToAppend(&ts, nil, &miner, nil, m.gasLimit, lim, nil, nil, &tip)
	b1, _, err = m.FinalizeAndAddBlock(b1)
	m.xShardGasLimit = old
	verifsym.Assert(err == nil, "honestly built block refused")
	verifsym.Reach("validated")
	b2, err := m.CreateBlockToMine(nil, &miner, nil, nil, nil)
	verifsym.Assert(err == nil, "next block cannot be created")
	b2, _, err = m.FinalizeAndAddBlock(b2)
	verifsym.Assert(err == nil, "next block refused")
	all := new(big.Int)
	for _, d := range want {
		all.Add(all, d.Value.Value)
	}
	verifsym.Assert(m.currentEvmState.GetBalance(verifAddr(2), tokn).Cmp(all) == 0, "a deposit was lost or applied twice across two blocks")
	ci := b2.Meta().XShardTxCursorInfo
	verifsym.Assert(ci.RootBlockHeight == 3 && ci.MinorBlockIndex == 0 && ci.XShardDepositIndex == 0, "cursor after everything was delivered")
}
