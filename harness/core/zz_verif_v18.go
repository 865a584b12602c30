package core

import (
	"math/big"

	"github.com/QuarkChain/goquarkchain/core/rawdb"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/verifsym"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/ethdb"
)

// verifCanon: the canonical chain is the one that ends at head, every height up
// to it resolves to its block of that height, and nothing is above it.
func verifCanon(bc *RootBlockChain, db *ethdb.MemDatabase, head *types.RootBlock, all []*types.RootBlock, top uint64, what string) {
	verifsym.Assert(bc.CurrentBlock().Hash() == head.Hash(), what+": head is the heaviest block")
	verifsym.Assert(rawdb.ReadHeadBlockHash(db) == head.Hash(), what+": head on disk")
	b := head
	for n := int(head.NumberU64()); n >= 0; n-- {
		x := bc.GetBlockByNumber(uint64(n))
		verifsym.Assert(x != nil && x.Hash() == b.Hash(), what+": height resolves to the chain of the head")
		if n > 0 {
			b = verifByHash(all, b.ParentHash())
		}
	}
	for n := head.NumberU64() + 1; n <= top; n++ {
		verifsym.Assert(bc.GetBlockByNumber(n) == nil, what+": a height above the head resolves to an orphan")
	}
}

func verifByHash(all []*types.RootBlock, h common.Hash) *types.RootBlock {
	for _, b := range all {
		if b.Hash() == h {
			return b
		}
	}
	return nil
}

// The root chain a node follows is always the heaviest it has seen (first seen
// wins a tie, except that the shorter chain wins it), and its height index is
// exactly that chain, on disk too.
//
//verif:harness V18 time=150 ttime=900 paths=200000 reach=extend,reorg,side,shorter
//verif:bounds genesis and up to 4 (thorough 5) blocks in any tree shape and insertion order, all difficulties 2^8..2^16-1
func VerifH_V18_RootChain() {
	bc, db, g := verifRootChain()
	all := []*types.RootBlock{g}
	head := g
	n := verifsym.Bound("blocks", 4, 5)
	for i := 0; i < n; i++ {
		p := all[verifsym.Choose("parent", len(all))]
		d := verifsym.Big("d", big.NewInt(1<<8), big.NewInt(1<<16-1))
		b := verifRootChild(p, d, uint64(i))
		all = append(all, b)
		if _, err := bc.InsertChain([]types.IBlock{b}); err != nil {
			verifsym.Assert(false, "honest block refused: "+err.Error())
		}
		c := b.TotalDifficulty().Cmp(head.TotalDifficulty())
		if c > 0 || c == 0 && b.NumberU64() < head.NumberU64() {
			if b.NumberU64() <= head.NumberU64() {
				verifsym.Reach("shorter")
			}
			if p == head {
				verifsym.Reach("extend")
			} else {
				verifsym.Reach("reorg")
			}
			head = b
		} else {
			verifsym.Reach("side")
		}
		verifCanon(bc, db, head, all, uint64(n), "after insertion")
	}
}
