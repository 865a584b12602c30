package state

import (
	"math/big"

	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/verifsym"
	"github.com/ethereum/go-ethereum/common"
)

// Reverting to a snapshot undoes everything done since: every observable is as before, and the
// state afterwards commits to the same root as one where nothing happened.
//verif:harness V06 time=150 ttime=900 paths=400000 reach=outer,inner
//verif:bounds committed pre-state with a contract, a plain account and an absent one, all balances/storage symbolic (45-bit amounts); one operation before the snapshot and 2 (thorough 3) after it, each any of 12 (add/sub/set balance, touch, self-destruct, create, nonce, code, storage, refund, log, preimage) on any account; optionally an inner snapshot reverted first
func VerifH_V06_Snapshot() { verifRevert(false) }

// The same for holders of many tokens, whose balances live in a trie of their own.
//verif:harness V06 time=150 ttime=900 paths=400000 reach=outer,inner
//verif:bounds committed pre-state with holders of 16 and of 17 tokens; one operation before the snapshot and 2 (thorough 3) after it, each any of 6 (add/sub/zero a balance, touch, self-destruct, create) on either; then a 17th token is received and the state committed and reloaded
func VerifH_V06_ManyTokens() { verifRevert(true) }

func verifRevert(tokens bool) {
	v := verifVal("")
	s := verifCommitted(v, tokens)
	twin := verifCommitted(v, tokens)
	s.Prepare(common.Hash{7}, common.Hash{8}, 1)
	twin.Prepare(common.Hash{7}, common.Hash{8}, 1)
	pre := verifsym.Choose("before", 2)
	amt := verifAmt("pre.amt")
	for _, x := range []*StateDB{s, twin} {
		a, b := verifA, uint64(verifTok)
		if tokens {
			a, b = verifT, verifTokenN(5)
		}
		switch pre {
		case 1:
			x.AddBalance(a, amt, b)
			x.SetNonce(a, 9)
			x.AddLog(&types.Log{Recipient: verifP})
			x.AddRefund(3)
		}
	}
	before := verifLook(s, tokens)
	refund, logs := s.GetRefund(), len(s.Logs())
	id := s.Snapshot()
	n := verifsym.Bound("ops", 2, 3)
	if tokens {
		n = verifsym.Bound("ops", 2, 2)
	}
	inner := verifsym.Choose("inner", 2) == 1
	verifOp(s, "o1", tokens, verifNumOps)
	if inner {
		verifsym.Reach("inner")
		mid := verifLook(s, tokens)
		id2 := s.Snapshot()
		verifOp(s, "o2", tokens, verifNumOps)
		s.RevertToSnapshot(id2)
		verifSameView(mid, verifLook(s, tokens), "inner revert")
	} else {
		for i := 1; i < n; i++ {
			verifOp(s, "o"+string(rune('1'+i)), tokens, verifNumOps)
		}
	}
	s.RevertToSnapshot(id)
	verifsym.Reach("outer")
	verifSameView(before, verifLook(s, tokens), "revert")
	verifsym.Assert(s.GetRefund() == refund, "gas refund counter restored")
	verifsym.Assert(len(s.Logs()) == logs && len(twin.Logs()) == logs, "logs restored")
	verifsym.Assert(len(s.Preimages()) == 0, "preimages restored")
	for _, x := range []*StateDB{s, twin} {
		x.AddLog(&types.Log{Recipient: verifP})
	}
	l1, l2 := s.Logs(), twin.Logs()
	verifsym.Assert(l1[len(l1)-1].Index == l2[len(l2)-1].Index, "number of the next log")
	// and whatever happens next happens as if the reverted operations had never run
	for _, x := range []*StateDB{s, twin} {
		if tokens {
			x.AddBalance(verifE, big.NewInt(1<<41), verifTokenN(40))
			x.AddBalance(verifT, big.NewInt(1<<41), verifTokenN(41))
		} else {
			x.AddBalance(verifP, big.NewInt(1<<41), verifTok2)
			x.SetState(verifA, verifL, common.Hash{31: 200})
		}
	}
	r1, e1 := s.Commit(true)
	r2, e2 := twin.Commit(true)
	verifsym.Assert(e1 == nil && e2 == nil, "state commits")
	verifsym.Assert(r1 == r2, "same state root as if nothing had happened")
}
