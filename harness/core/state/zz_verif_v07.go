package state

import (
	"math/big"

	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/verifsym"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/ethdb"
)

// Whatever was done to a state can be read back after it is committed and reloaded from disk, and nothing else.
//verif:harness V07 time=150 ttime=900 paths=400000 reach=done,gone
//verif:bounds committed pre-state (contract, plain, absent account; symbolic 45-bit amounts); 2 (thorough 3) of 9 operations on any account, then commit, flush of the node cache to an in-memory key-value store, and reload; optionally an intermediate per-transaction finalisation between the operations
func VerifH_V07_Reload() { verifReload(false) }

// The same for holders of 16 and of 17 tokens.
//verif:harness V07 time=150 ttime=900 paths=400000 reach=done,gone
//verif:bounds holders of 16 and of 17 tokens, 2 of 6 operations, commit, flush, reload
func VerifH_V07_ReloadManyTokens() { verifReload(true) }

func verifReload(tokens bool) {
	v := verifVal("")
	kv := ethdb.NewMemDatabase()
	db := NewDatabase(kv)
	s, err := New(common.Hash{}, db)
	if err != nil {
		panic(err)
	}
	verifFill(s, v, tokens)
	first := verifLook(s, tokens)
	root, err := s.Commit(true)
	verifsym.Assert(err == nil, "first commit")
	verifsym.Assert(db.TrieDB().Commit(root, false) == nil, "flush")
	s, err = New(root, NewDatabase(kv))
	verifsym.Assert(err == nil, "first reload")
	for i := range first {
		first[i].committed = first[i].slots
	}
	verifSameView(first, verifLook(s, tokens), "first reload")
	s.SetFullShardKey(0x10002)
	s.Prepare(common.Hash{7}, common.Hash{8}, 1)
	n := verifsym.Bound("ops", 2, 3)
	if tokens {
		n = 2
	}
	mid := verifsym.Choose("finalise", 2) == 1
	for i := 0; i < n; i++ {
		verifOp(s, "o"+string(rune('1'+i)), tokens, 9)
		if mid && i == 0 {
			s.Finalise(true)
		}
	}
	before := verifLook(s, tokens)
	r1, err := s.Commit(true)
	verifsym.Assert(err == nil, "commit")
	verifsym.Assert(s.Database().TrieDB().Commit(r1, false) == nil, "flush")
	re, err := New(r1, NewDatabase(kv))
	verifsym.Assert(err == nil, "reload")
	after := verifLook(re, tokens)
	for i := range before {
		b, a := before[i], after[i]
		if b.suicided || b.empty {
			verifsym.Reach("gone")
			verifsym.Assert(!a.exist, "a destroyed or empty account is gone")
			continue
		}
		b.committed = b.slots
		a.suicided = b.suicided
		verifSameView([]verifView{b}, []verifView{a}, "reloaded")
		verifsym.Assert(re.GetFullShardKey([]common.Address{verifA, verifP, verifN}[i]) == 0x10002 || tokens, "full shard key kept")
	}
	// the root does not depend on when it is computed
	r2, err := re.Commit(true)
	verifsym.Assert(err == nil && r2 == r1, "an unchanged state has the same root")
	verifsym.Reach("done")
}

// A copy of a state starts equal to it and the two never influence each other.
//verif:harness V07 time=150 ttime=900 paths=400000 reach=done
//verif:bounds committed pre-state (contract, plain, absent account); one operation before the copy, one on the original and one on the copy, each any of 12 on any account; both then committed
func VerifH_V07_Copy() { verifCopy(false) }

// The same for holders of 16 and of 17 tokens.
//verif:harness V07 time=150 ttime=900 paths=400000 reach=done
//verif:bounds holders of 16 and of 17 tokens; one operation before the copy, one on either side, both committed
func VerifH_V07_CopyManyTokens() { verifCopy(true) }

func verifCopy(tokens bool) {
	v := verifVal("")
	s := verifCommitted(v, tokens)
	s.Prepare(common.Hash{7}, common.Hash{8}, 1)
	s.SetTimeStamp(77)
	s.SetBlockNumber(5)
	s.SetSenderDisallowMap(map[common.Address]*big.Int{verifP: big.NewInt(3)})
	// read a little first, so that some accounts are cached but unchanged
	s.GetBalance(verifT, verifTokenN(5))
	s.GetState(verifA, verifK)
	verifOp(s, "o1", tokens, verifNumOps)
	if verifsym.Choose("finalise", 2) == 1 {
		s.Finalise(true)
	}
	c := s.Copy()
	verifSameView(verifLook(s, tokens), verifLook(c, tokens), "copy")
	verifsym.Assert(c.GetRefund() == s.GetRefund() && len(c.Logs()) == len(s.Logs()), "copy: refund and logs")
	verifsym.Assert(c.GetTimeStamp() == 77 && c.GetBlockNumber() == 5 && len(c.GetSenderDisallowMap()) == 1, "copy: block context")
	mine := verifLook(s, tokens)
	c.Prepare(common.Hash{7}, common.Hash{8}, 1)
	refund, nlogs := s.GetRefund(), len(s.Logs())
	verifOp(c, "o2", tokens, verifNumOps)
	verifTail(c, tokens)
	theirs := verifLook(c, tokens)
	rc, err := c.Commit(true)
	verifsym.Assert(err == nil, "the copy commits")
	ce, err := New(rc, c.Database())
	verifsym.Assert(err == nil, "reload of the copy")
	for i, a := range verifLook(ce, tokens) {
		if theirs[i].suicided || theirs[i].empty {
			verifsym.Assert(!a.exist, "gone from the copy")
			continue
		}
		theirs[i].committed = theirs[i].slots
		verifSameView(theirs[i:i+1], []verifView{a}, "copy committed")
	}
	verifSameView(mine, verifLook(s, tokens), "original untouched by its copy")
	verifsym.Assert(s.GetRefund() == refund && len(s.Logs()) == nlogs, "original's refund and logs untouched")
	// the original commits to what it shows
	rs, err := s.Commit(true)
	verifsym.Assert(err == nil, "the original commits")
	re, err := New(rs, s.Database())
	verifsym.Assert(err == nil, "reload")
	after := verifLook(re, tokens)
	for i := range mine {
		if mine[i].suicided || mine[i].empty {
			verifsym.Assert(!after[i].exist, "gone")
			continue
		}
		mine[i].committed = mine[i].slots
		verifSameView(mine[i:i+1], after[i:i+1], "original committed after its copy was")
	}
	verifsym.Reach("done")
}

func verifTail(x *StateDB, tokens bool) {
	if tokens {
		x.AddBalance(verifE, big.NewInt(1<<41), verifTokenN(40))
		x.AddBalance(verifT, big.NewInt(1<<41), verifTokenN(5))
		return
	}
	x.AddBalance(verifP, big.NewInt(1<<41), verifTok2)
	x.SetState(verifA, verifL, common.Hash{31: 200})
	x.AddLog(&types.Log{Recipient: verifP})
}

// Listing all balances of an account (as the pool, the PoSW stake check and
// the RPC do) shows what reading them one by one shows.
//verif:harness V07 time=150 ttime=900 reach=done
//verif:bounds contract, plain and absent accounts and holders of 16 and of 17 tokens, one operation on the reloaded state, then commit, flush and reload; listing before, between and after
func VerifH_V07_Listing() {
	tokens := verifsym.Choose("tokens", 2) == 1
	v := verifVal("")
	kv := ethdb.NewMemDatabase()
	db := NewDatabase(kv)
	s, err := New(common.Hash{}, db)
	if err != nil {
		panic(err)
	}
	verifFill(s, v, tokens)
	verifList(s, tokens, "filled")
	root, err := s.Commit(true)
	verifsym.Assert(err == nil, "commit")
	verifsym.Assert(db.TrieDB().Commit(root, false) == nil, "flush")
	s, err = New(root, NewDatabase(kv))
	verifsym.Assert(err == nil, "reload")
	s.SetFullShardKey(0x10002)
	if verifsym.Choose("list", 2) == 1 {
		verifList(s, tokens, "reloaded")
	}
	verifOp(s, "o", tokens, 6)
	verifList(s, tokens, "changed")
	r1, err := s.Commit(true)
	verifsym.Assert(err == nil, "commit")
	verifsym.Assert(s.Database().TrieDB().Commit(r1, false) == nil, "flush")
	s, err = New(r1, NewDatabase(kv))
	verifsym.Assert(err == nil, "reload")
	verifList(s, tokens, "reloaded after a change")
	verifsym.Reach("done")
}

func verifList(s *StateDB, tokens bool, what string) {
	as := []common.Address{verifA, verifP, verifN}
	toks := []uint64{verifTok, verifTok2, 5}
	if tokens {
		as = []common.Address{verifT, verifE}
		toks = []uint64{verifTokenN(40), verifTok}
		for i := 0; i < 17; i++ {
			toks = append(toks, verifTokenN(i))
		}
	}
	for _, a := range as {
		if !s.Exist(a) {
			continue
		}
		tb := s.GetBalances(a)
		m := tb.GetBalanceMap()
		listed := 0
		for _, t := range toks {
			b := s.GetBalance(a, t)
			x := m[t]
			if x == nil {
				x = new(big.Int)
			} else {
				listed++
			}
			verifsym.Assert(x.Cmp(b) == 0, what+": listed balance")
			verifsym.Assert(tb.GetTokenBalance(t).Cmp(b) == 0, what+": balance in the list")
		}
		verifsym.Assert(listed == len(m), what+": unknown token listed")
	}
}
