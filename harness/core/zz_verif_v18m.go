package core

import (
	"math/big"

	"github.com/QuarkChain/goquarkchain/core/rawdb"
	"github.com/QuarkChain/goquarkchain/verifsym"
	"github.com/ethereum/go-ethereum/common"
)

// check: the shard follows the chain the rules pick, and says so everywhere.
func (s *verifShard) check() {
	m, head := s.m, s.minors[s.head]
	verifsym.Assert(m.GetRootTip().Hash() == s.roots[s.tip].Hash(), "root tip is the heaviest root block")
	verifsym.Assert(m.CurrentBlock().Hash() == head.Hash(), "head is the block fork choice picks")
	verifsym.Assert(rawdb.ReadHeadBlockHash(m.db) == head.Hash(), "head on disk")
	if c := s.conf[s.tip]; c >= 0 {
		verifsym.Assert(m.GetMinorTip() != nil && m.GetMinorTip().Hash() == s.minors[c].Hash(), "confirmed tip")
		verifsym.Assert(s.minorAncestor(c, s.head), "the head builds on what the root chain confirmed")
	}
	st, err := m.State()
	verifsym.Assert(err == nil && st.IntermediateRoot(true) == head.Meta().Root, "state is the head's")
	// (heights above the head are left alone: TestResetToOldChain expects the old chain's blocks there)
	for n := uint64(0); n <= head.NumberU64(); n++ {
		x := m.GetBlockByNumber(n)
		i := s.head
		for s.minors[i].NumberU64() != n {
			i = s.minorIdx(s.minors[i].ParentHash())
		}
		verifsym.Assert(x != nil && x.Hash() == s.minors[i].Hash(), "height resolves to the chain of the head")
		hn := n
		h, err := m.GetHashByHeight(&hn)
		verifsym.Assert(err == nil && h == s.minors[i].Hash(), "hash by height")
	}
	// transactions: those of the chain are found where they are, others are not
	for i, b := range s.minors {
		on := s.minorAncestor(i, s.head)
		for k, tx := range b.Transactions() {
			where := -1
			if on {
				where = i
			} else {
				for j := s.head; j > 0; j = s.minorIdx(s.minors[j].ParentHash()) {
					for _, t := range s.minors[j].Transactions() {
						if t.Hash() == tx.Hash() {
							where = j
						}
					}
				}
			}
			blk, idx, r := m.GetTransactionReceipt(tx.Hash())
			if where < 0 {
				verifsym.Assert(r == nil, "receipt of a transaction that is not on the chain")
				_, h, _ := rawdb.ReadTransaction(m.db, tx.Hash())
				verifsym.Assert(h == common.Hash{}, "an orphaned transaction is still indexed")
				continue
			}
			verifsym.Assert(blk != nil && blk.Hash() == s.minors[where].Hash() && r != nil && r.TxHash == tx.Hash(), "transaction is found in its block")
			if where == i {
				verifsym.Assert(idx == uint32(k), "transaction index")
			}
		}
	}
}

// A shard follows the heaviest root chain, on it the chain of blocks that root
// chain confirmed, above that the longest; its head, height index, state and
// transaction lookups always agree on that one chain.
//
//verif:harness V18 time=200 ttime=900 paths=200000 steps=400000000 reach=fork,reorg,rootreorg,rollback
//verif:bounds a shard at genesis, then 4 (thorough 5) blocks in any order, at most 3 minor blocks in any tree shape each with one transfer (the same or another at the same height) and at most 2 root blocks, each on any root block, confirming any chain of minor blocks; all root difficulties in 2^16..2^17-1
func VerifH_V18_MinorChain() {
	verifForkChoice(3, 2, verifsym.Bound("steps", 4, 5), 1<<17-1)
}

// The same where root chains differ in length: the heaviest may be the shortest.
//
//verif:harness V18 time=200 ttime=900 paths=200000 steps=400000000 reach=rootreorg,rollback
//verif:bounds a shard at genesis, then 4 (thorough 5) blocks in any order, at most 1 minor block (thorough 2) and at most 3 root blocks, each on any root block, confirming any chain of minor blocks; all root difficulties in 2^16..2^24-1
func VerifH_V18_RootReorg() {
	verifForkChoice(verifsym.Bound("minors", 1, 2), 3, verifsym.Bound("steps", 4, 5), 1<<24-1)
}

func verifForkChoice(nm, nr, steps int, maxDiff int64) {
	s := verifNewShard()
	for ; steps > 0; steps-- {
		old := s.head
		if nr == 0 || nm > 0 && verifsym.Choose("op", 2) == 0 {
			// only what an honest miner may build: a root block at or after the parent's, and on what it confirmed
			var ps, rs []int
			for p := range s.minors {
				for r := range s.roots {
					if s.rootAncestor(s.prevRoot(p), r) && (s.conf[r] < 0 || s.minorAncestor(s.conf[r], p)) {
						ps, rs = append(ps, p), append(rs, r)
					}
				}
			}
			k := verifsym.Choose("place", len(ps))
			p, r := ps[k], rs[k]
			n := s.minors[p].NumberU64()
			v := int64(n)
			for _, b := range s.minors {
				if b.NumberU64() == n+1 {
					if verifsym.Choose("tx", 2) == 1 {
						v = int64(100 + nm)
					}
					break
				}
			}
			i := s.addMinor(p, r, uint64(nm), s.tx(n, v))
			if s.head != i {
				verifsym.Reach("fork")
			} else if p != old {
				verifsym.Reach("reorg")
			}
			nm--
		} else {
			var ps, cs []int
			for p := range s.roots {
				ps, cs = append(ps, p), append(cs, -1)
				for c := range s.minors {
					if s.conf[p] >= 0 && !s.minorAncestorStrict(s.conf[p], c) || !s.rootAncestor(s.prevRoot(c), p) {
						continue
					}
					ps, cs = append(ps, p), append(cs, c)
				}
			}
			k := verifsym.Choose("rplace", len(ps))
			p, c := ps[k], cs[k]
			d := verifsym.Big("d", big.NewInt(1<<16), big.NewInt(maxDiff))
			s.addRoot(p, c, d, uint64(nr))
			if s.head != old {
				verifsym.Reach("rootreorg")
				if s.minorAncestor(s.head, old) {
					verifsym.Reach("rollback")
				}
			}
			nr--
		}
		s.check()
	}
}
