package state

//verif:common

import (
	"bytes"
	"math/big"

	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/verifsym"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/ethdb"
)

const (
	verifTok  = 35760
	verifTok2 = 77
)

var (
	verifA = common.Address{1, 0xa} // contract: code, storage, nonce, two tokens
	verifP = common.Address{2, 0xb} // plain account, one token
	verifN = common.Address{3, 0xc} // does not exist
	verifT = common.Address{4, 0xd} // holder of 17 tokens (balances kept in a trie)
	verifE = common.Address{5, 0xe} // holder of exactly 16 tokens
	verifK = common.Hash{31: 1}
	verifL = common.Hash{31: 2}
	verifC = []byte{0x60, 0x00}
)

// verifAmt: an amount of fixed encoded length
func verifAmt(n string) *big.Int {
	return verifsym.Big(n, big.NewInt(1<<41), big.NewInt(1<<45-1))
}

func verifTokenN(i int) uint64 { return uint64(1000 + i) }

type verifVals struct{ a1, a2, p1, t1, e1, st, nonce *big.Int }

func verifFill(s *StateDB, v *verifVals, tokens bool) {
	s.SetFullShardKey(0x10002)
	s.SetNonce(verifA, 5)
	s.SetBalance(verifA, v.a1, verifTok)
	s.SetBalance(verifA, v.a2, verifTok2)
	s.SetCode(verifA, verifC)
	s.SetState(verifA, verifK, common.BigToHash(v.st))
	s.SetBalance(verifP, v.p1, verifTok)
	if tokens {
		for i := 0; i < 17; i++ {
			s.SetBalance(verifT, big.NewInt(int64(500+i)), verifTokenN(i))
		}
		s.SetBalance(verifT, v.t1, verifTokenN(3))
		for i := 0; i < 16; i++ {
			s.SetBalance(verifE, big.NewInt(int64(700+i)), verifTokenN(i))
		}
		s.SetBalance(verifE, v.e1, verifTokenN(3))
	}
}

// verifCommitted builds the pre-state and returns it as reloaded from its database.
func verifCommitted(v *verifVals, tokens bool) *StateDB {
	db := NewDatabase(ethdb.NewMemDatabase())
	s, err := New(common.Hash{}, db)
	if err != nil {
		panic(err)
	}
	verifFill(s, v, tokens)
	root, err := s.Commit(true)
	if err != nil {
		panic(err)
	}
	s, err = New(root, db)
	if err != nil {
		panic(err)
	}
	s.SetFullShardKey(0x10002)
	return s
}

func verifVal(tag string) *verifVals {
	return &verifVals{a1: verifAmt(tag + "a1"), a2: verifAmt(tag + "a2"), p1: verifAmt(tag + "p1"), t1: verifAmt(tag + "t1"), e1: verifsym.Big(tag+"e1", big.NewInt(1<<46), big.NewInt(1<<47-1)),
		st: verifsym.Big(tag+"st", big.NewInt(128), big.NewInt(255))}
}

func verifPick(n string, tokens bool) (common.Address, uint64) {
	if tokens {
		switch verifsym.Choose(n, 4) {
		case 0:
			return verifT, verifTokenN(3)
		case 1:
			return verifT, verifTokenN(5)
		case 2:
			return verifE, verifTokenN(3)
		}
		return verifE, verifTokenN(40)
	}
	switch verifsym.Choose(n, 4) {
	case 0:
		return verifA, verifTok
	case 1:
		return verifA, verifTok2
	case 2:
		return verifP, verifTok
	}
	return verifN, verifTok
}

func verifWho(n string, tokens bool) common.Address {
	if tokens {
		return []common.Address{verifT, verifE}[verifsym.Choose(n, 2)]
	}
	return []common.Address{verifA, verifP, verifN}[verifsym.Choose(n, 3)]
}

const verifNumOps = 12

func verifOp(s *StateDB, n string, tokens bool, kinds int) {
	k := 0
	if tokens {
		k = verifsym.Choose(n+".op", 6)
	} else {
		k = verifsym.Choose(n+".op", kinds)
	}
	switch k {
	case 0:
		ad, tk := verifPick(n+".who", tokens)
		s.AddBalance(ad, verifAmt(n+".amt"), tk)
	case 1:
		ad, tk := verifPick(n+".who", tokens)
		x := verifsym.Big(n+".amt", big.NewInt(1), big.NewInt(1<<40))
		if s.GetBalance(ad, tk).Cmp(x) >= 0 {
			s.SubBalance(ad, x, tk)
		}
	case 2:
		ad, tk := verifPick(n+".who", tokens)
		s.SetBalance(ad, new(big.Int), tk)
	case 3:
		ad, tk := verifPick(n+".who", tokens)
		s.AddBalance(ad, new(big.Int), tk)
	case 4:
		ad := verifWho(n+".who", tokens)
		s.Suicide(ad)
	case 5:
		ad := verifWho(n+".who", tokens)
		s.CreateAccount(ad)
		s.SetNonce(ad, 1) // as contract creation does
	case 6:
		ad := verifWho(n+".who", tokens)
		s.SetNonce(ad, verifsym.U64r(n+".nonce", 256, 65535))
	case 7:
		ad := verifWho(n+".who", tokens)
		s.SetCode(ad, []byte{0x61, 1, 2})
	case 8:
		ad := verifWho(n+".who", tokens)
		var h common.Hash
		h[31] = verifsym.BV8(n + ".word")
		key := verifK
		if verifsym.Choose(n+".key", 2) == 1 {
			key = verifL
		}
		s.SetState(ad, key, h)
	case 9:
		if s.GetRefund() > 0 {
			s.SubRefund(1)
		} else {
			s.AddRefund(verifsym.U64r(n+".refund", 1, 1<<40))
		}
	case 10:
		s.AddLog(&types.Log{Recipient: verifA, Data: []byte{verifsym.BV8(n + ".log")}})
	case 11:
		s.AddPreimage(common.Hash{9}, []byte{1})
	}
}

type verifView struct {
	exist, suicided, empty bool
	nonce                  uint64
	code                   []byte
	hash                   common.Hash
	bal                    []*big.Int
	slots                  [2]common.Hash
	committed              [2]common.Hash
}

func verifLook(s *StateDB, tokens bool) []verifView {
	var r []verifView
	as := []common.Address{verifA, verifP, verifN}
	if tokens {
		as = []common.Address{verifT, verifE}
	}
	for _, a := range as {
		v := verifView{exist: s.Exist(a), suicided: s.HasSuicided(a), empty: s.Empty(a), code: s.GetCode(a), hash: s.GetCodeHash(a)}
		if v.exist {
			v.nonce = s.GetNonce(a)
		}
		if tokens {
			for i := 0; i < 17; i++ {
				v.bal = append(v.bal, s.GetBalance(a, verifTokenN(i)))
			}
			v.bal = append(v.bal, s.GetBalance(a, verifTokenN(40)))
		} else {
			v.bal = []*big.Int{s.GetBalance(a, verifTok), s.GetBalance(a, verifTok2)}
			v.slots = [2]common.Hash{s.GetState(a, verifK), s.GetState(a, verifL)}
			v.committed = [2]common.Hash{s.GetCommittedState(a, verifK), s.GetCommittedState(a, verifL)}
		}
		r = append(r, v)
	}
	return r
}

func verifSameView(x, y []verifView, what string) {
	for i := range x {
		a, b := x[i], y[i]
		verifsym.Assert(a.exist == b.exist && a.suicided == b.suicided && a.empty == b.empty, what+": account existence")
		verifsym.Assert(a.nonce == b.nonce, what+": nonce")
		verifsym.Assert(bytes.Equal(a.code, b.code) && a.hash == b.hash, what+": code")
		for j := range a.bal {
			verifsym.Assert(a.bal[j].Cmp(b.bal[j]) == 0, what+": token balance")
		}
		verifsym.Assert(a.slots == b.slots && a.committed == b.committed, what+": storage")
	}
}

