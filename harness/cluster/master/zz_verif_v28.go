package master

import (
	"math/big"

	"github.com/QuarkChain/goquarkchain/cluster/config"
	qkcsync "github.com/QuarkChain/goquarkchain/cluster/sync"
	qkcom "github.com/QuarkChain/goquarkchain/common"
	"github.com/QuarkChain/goquarkchain/consensus"
	"github.com/QuarkChain/goquarkchain/core"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/p2p"
	"github.com/QuarkChain/goquarkchain/verifsym"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/ethdb"
)

func verifRootChild(p *types.RootBlock, diff int64, salt uint64) *types.RootBlock {
	d := big.NewInt(diff)
	h := &types.RootBlockHeader{Number: p.Number() + 1, ParentHash: p.Hash(), Time: p.Time() + 10, Difficulty: d, ToTalDifficulty: new(big.Int).Add(p.TotalDifficulty(), d),
		CoinbaseAmount: types.NewEmptyTokenBalances(), Nonce: salt, Root: types.EmptyTrieHash}
	h.MinorHeaderHash = types.CalculateMerkleRoot(types.MinorBlockHeaders(nil))
	return types.NewRootBlockWithHeader(h).WithBody(nil, nil)
}

// verifRoots: a root chain of n blocks after genesis, with a fork of two beside block 1.
func verifRoots(n int) (pm *ProtocolManager, chain, side []*types.RootBlock) {
	cfg := config.NewQuarkChainConfig()
	cfg.SkipRootCoinbaseCheck = true
	cfg.SkipRootDifficultyCheck = true
	db := ethdb.NewMemDatabase()
	chain = []*types.RootBlock{core.NewGenesis(cfg).MustCommitRootBlock(db)}
	bc, err := core.NewRootBlockChain(db, cfg, new(consensus.FakeEngine))
	if err != nil {
		panic(err)
	}
	add := func(b *types.RootBlock) *types.RootBlock {
		if _, err := bc.InsertChain([]types.IBlock{b}); err != nil {
			panic(err)
		}
		return b
	}
	// the fork comes first, so that the chain takes its place
	s1 := add(verifRootChild(chain[0], 5, 9))
	side = []*types.RootBlock{s1, add(verifRootChild(s1, 5, 9))}
	for i := 0; i < n; i++ {
		chain = append(chain, add(verifRootChild(chain[i], 10, 1)))
	}
	return &ProtocolManager{rootBlockChain: bc}, chain, side
}

// A peer that asks for root block headers by height or by hash, forward or
// backward, every so many, gets those of the node's current chain at exactly
// the heights it asked for, and no others.
//
//verif:harness V28 time=60 ttime=300 paths=40000 reach=height,hash,none,side,bad
//verif:bounds chain of 3 (thorough 5) root blocks that replaced a fork of 2, all heights of 256 bits, all hashes, all skips, limits 1 to 4 (thorough 6), the largest and all bad ones, all directions and types
func VerifH_V28_RootSkip() {
	n := verifsym.Bound("blocks", 3, 5)
	pm, chain, side := verifRoots(n)
	req := &p2p.GetRootBlockHeaderListWithSkipRequest{
		Type: verifsym.U8("type"), Limit: uint32(verifsym.Choose("limit", n+3)), Skip: verifsym.U32("skip"), Direction: verifsym.U8("direction"),
	}
	if req.Limit == 0 {
		req.Limit = verifsym.U32("limit?")
		verifsym.Assume(verifsym.Or(req.Limit == 0, uint64(req.Limit) > 2*qkcsync.RootBlockHeaderListLimit))
	} else if int(req.Limit) == n+2 {
		req.Limit = 2 * qkcsync.RootBlockHeaderListLimit
	}
	start := -1 // block asked for by hash
	var height *big.Int
	switch verifsym.Choose("data", 4) {
	case 0:
		height = verifsym.Big("height", new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1)))
		req.Data = common.BigToHash(height)
		verifsym.Assume(req.Type != qkcom.SkipHash)
	case 1:
		start = verifsym.Choose("block", len(chain))
		req.Data = chain[start].Hash()
		verifsym.Assume(req.Type == qkcom.SkipHash)
	case 2:
		req.Data = side[verifsym.Choose("side", len(side))].Hash()
		verifsym.Assume(req.Type == qkcom.SkipHash)
	default:
		req.Data = common.Hash{1}
		verifsym.Assume(req.Type == qkcom.SkipHash)
	}
	resp, err := pm.HandleGetRootBlockHeaderListWithSkipRequest("p", 1, req)
	good := verifsym.And(req.Limit >= 1, uint64(req.Limit) <= 2*qkcsync.RootBlockHeaderListLimit)
	good = verifsym.And(good, req.Direction <= 1)
	good = verifsym.And(good, req.Type <= 1)
	verifsym.Assert(verifsym.Iff(err == nil, good), "a bad request, and only a bad one, is refused")
	if err != nil {
		verifsym.Reach("bad")
		return
	}
	verifsym.Assert(resp.RootTip != nil && resp.RootTip.Hash() == chain[n].Hash(), "tip")
	var want []int
	if height != nil {
		for i := range chain {
			if height.Cmp(big.NewInt(int64(i))) == 0 {
				start = i
			}
		}
	}
	if start >= 0 {
		step := uint64(req.Skip) + 1
		for k := 0; k <= n; k++ {
			off := uint64(k) * step
			if uint32(k) >= req.Limit {
				break
			}
			if req.Direction == qkcom.DirectionToGenesis {
				if off > uint64(start) {
					break
				}
				want = append(want, start-int(verifsym.ConcreteU64(off)))
			} else {
				if uint64(start)+off > uint64(n) {
					break
				}
				want = append(want, start+int(verifsym.ConcreteU64(off)))
			}
		}
	}
	verifsym.Assert(len(resp.BlockHeaderList) == len(want), "number of headers")
	for i, h := range want {
		verifsym.Assert(resp.BlockHeaderList[i].Hash() == chain[h].Hash(), "header at the height asked for")
	}
	switch {
	case height != nil && len(want) > 1:
		verifsym.Reach("height")
	case height == nil && len(want) > 1:
		verifsym.Reach("hash")
	case height != nil && len(want) == 0:
		verifsym.Reach("none")
	case height == nil && len(want) == 0:
		verifsym.Reach("side")
	}
}

// Asked for the headers that lead to a block, on whatever chain it is, the node
// tells them one by one down to genesis; asked for blocks, it sends exactly
// those it has of the ones named.
//
//verif:harness V28 time=60 ttime=120 reach=headers,genesis,bad,unknown
//verif:bounds chain of 3 root blocks that replaced a fork of 2, all blocks of both, all limits that are refused and 1 to 5 or the largest of those that are not, all directions
func VerifH_V28_RootHeaders() {
	n := 3
	pm, chain, side := verifRoots(n)
	req := &p2p.GetRootBlockHeaderListRequest{Limit: uint32(verifsym.Choose("limit", n+4)), Direction: verifsym.U8("direction")}
	if req.Limit == 0 {
		req.Limit = verifsym.U32("limit?")
		verifsym.Assume(verifsym.Or(req.Limit == 0, uint64(req.Limit) > 2*qkcsync.RootBlockHeaderListLimit))
	} else if int(req.Limit) == n+3 {
		req.Limit = 2 * qkcsync.RootBlockHeaderListLimit
	}
	var line []*types.RootBlock
	switch verifsym.Choose("hash", 3) {
	case 0:
		line = chain[:verifsym.Choose("block", len(chain))+1]
	case 1:
		line = append(chain[:1:1], side[:verifsym.Choose("side", len(side))+1]...)
	}
	if line != nil {
		req.BlockHash = line[len(line)-1].Hash()
	} else {
		req.BlockHash = common.Hash{1}
	}
	resp, err := pm.HandleGetRootBlockHeaderListRequest(req)
	good := verifsym.And(req.Limit >= 1, uint64(req.Limit) <= 2*qkcsync.RootBlockHeaderListLimit)
	good = verifsym.And(good, req.Direction == qkcom.DirectionToGenesis)
	good = verifsym.And(good, line != nil)
	verifsym.Assert(verifsym.Iff(err == nil, good), "a bad request, and only a bad one, is refused")
	if err != nil {
		verifsym.Reach("bad")
		if line == nil {
			verifsym.Reach("unknown")
		}
		return
	}
	want := len(line)
	if uint32(want) > req.Limit {
		want = int(req.Limit)
		verifsym.Reach("headers")
	} else {
		verifsym.Reach("genesis")
	}
	verifsym.Assert(resp.RootTip != nil && resp.RootTip.Hash() == chain[n].Hash(), "tip")
	verifsym.Assert(len(resp.BlockHeaderList) == want, "number of headers")
	for i, h := range resp.BlockHeaderList {
		verifsym.Assert(h.Hash() == line[len(line)-1-i].Hash(), "header below the one before")
	}
}

// verifHash: a hash made up by the peer, with every byte of its last word symbolic
func verifHash(like common.Hash) common.Hash {
	copy(like[24:], verifsym.BVBytes("hash", 8))
	return like
}

//verif:harness V28 time=60 ttime=120 reach=all,some,none,bad
//verif:bounds lists of 0 to 3 hashes, each of a block of the chain or of the fork or one that agrees with one of them in all but its last 8 bytes, whatever those are; lists of 200 and 201 hashes
func VerifH_V28_RootBlocks() {
	pm, chain, side := verifRoots(2)
	blocks := append(chain[:len(chain):len(chain)], side...)
	req := &p2p.GetRootBlockListRequest{}
	var want []*types.RootBlock
	n := verifsym.Choose("len", 6)
	if n > 3 {
		for i := 0; i < 196+n; i++ {
			req.RootBlockHashList = append(req.RootBlockHashList, chain[1].Hash())
		}
		resp, err := pm.HandleGetRootBlockListRequest(req)
		verifsym.Assert((err == nil) == (n == 4), "too long a list, and only that, is refused")
		verifsym.Assert(err != nil || len(resp.RootBlockList) == 200, "number of blocks")
		verifsym.Reach("bad")
		return
	}
	made := false
	for i := 0; i < n; i++ {
		b := verifsym.Choose("block", len(blocks))
		h := blocks[b].Hash()
		if !made && verifsym.Choose("made up", 2) == 1 {
			made = true
			h = verifHash(h)
		}
		req.RootBlockHashList = append(req.RootBlockHashList, h)
		if h == blocks[b].Hash() {
			want = append(want, blocks[b])
		}
	}
	resp, err := pm.HandleGetRootBlockListRequest(req)
	verifsym.Assert(err == nil, "refused")
	verifsym.Assert(len(resp.RootBlockList) == len(want), "number of blocks")
	for i, b := range resp.RootBlockList {
		verifsym.Assert(b.Hash() == want[i].Hash(), "block asked for")
		verifsym.Assert(len(b.MinorBlockHeaders()) == len(want[i].MinorBlockHeaders()), "its minor headers")
	}
	switch {
	case n > 0 && len(want) == n:
		verifsym.Reach("all")
	case n > 0 && len(want) == 0:
		verifsym.Reach("none")
	case n > 0:
		verifsym.Reach("some")
	}
}
