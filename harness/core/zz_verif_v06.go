package core

import (
	"math/big"

	"github.com/QuarkChain/goquarkchain/core/vm"
	"github.com/QuarkChain/goquarkchain/verifsym"
	"github.com/ethereum/go-ethereum/common"
)

// A call either takes full effect or none: wherever it stops (out of gas at any instruction,
// revert, invalid instruction), every change made inside it, by itself or by the calls and
// creations it made, is undone; gas and nonce alone are spent.
//verif:harness V06 time=150 ttime=300 reach=all,none,outeroog,create
//verif:bounds transaction or contract calling a contract that writes and clears storage, logs, sends value, has another contract self-destruct and creates one, ending in STOP/REVERT/INVALID, RETURN of 100 or of 24577 bytes, with any gas ≤ 2^23 (so out of gas at any instruction and while storing code); value forwarded to it symbolic ≤ 2^128; called directly, by CALL, DELEGATECALL or CALLCODE, or run as creation code
func VerifH_V06_Calls() {
	verifsym.OpaqueTxHash()
	st := verifState()
	qkc := st.GetQuarkChainConfig().GetDefaultChainTokenID()
	a, o, in, c, s, cb := verifAddr(1), verifAddr(2), verifAddr(3), verifAddr(4), verifAddr(5), verifAddr(9)
	mode := verifsym.Choose("mode", 5) // 0: tx calls inner, 1: outer calls inner, 2: tx creates with inner's code, 3: outer delegates to inner, 4: outer runs inner's code
	ends := [][]byte{{0x00}, {0x60, 0, 0x60, 0, 0xfd}, {0xfe}, {0x60, 100, 0x60, 0, 0xf3}, {0x61, 0x60, 0x01, 0x60, 0, 0xf3}}
	ei := verifsym.Choose("end", len(ends))
	end := ends[ei]
	inner := verifCat(
		[]byte{0x60, 1, 0x60, 5, 0x55},   // SSTORE(5,1)
		[]byte{0x60, 0, 0x60, 6, 0x55},   // SSTORE(6,0)
		[]byte{0x60, 0, 0x60, 0, 0xa0},   // LOG0
		[]byte{0x60, 0, 0x60, 0, 0x60, 0, 0x60, 0, 0x60, 3, 0x73}, verifAddrB(4), []byte{0x61, 0xff, 0xff, 0xf1, 0x50}, // CALL c value 3
		[]byte{0x60, 0, 0x60, 0, 0x60, 0, 0x60, 0, 0x60, 0, 0x73}, verifAddrB(5), []byte{0x62, 0x0f, 0xff, 0xff, 0xf1, 0x50}, // CALL s (self-destructs)
		[]byte{0x60, 0, 0x60, 0, 0x60, 1, 0xf0, 0x50}, // CREATE value 1
		end)
	st.SetTimeStamp(1 << 40)
	st.SetFullShardKey(0)
	bal := verifsym.Big("balA", new(big.Int).Lsh(big.NewInt(1), 120), verifU128)
	st.AddBalance(a, bal, qkc)
	st.AddBalance(c, big.NewInt(7), qkc)
	st.AddBalance(o, big.NewInt(1000), qkc)
	st.AddBalance(s, big.NewInt(50), qkc)
	st.SetCode(s, verifCat([]byte{0x73}, verifAddrB(4), []byte{0xff}))
	st.SetNonce(s, 1)
	st.SetNonce(o, 1)
	h := verifHeader(cb, 1<<40)
	fwd := new(big.Int)
	value := verifBig("value", verifU128)
	to := &in
	var data []byte
	me := in
	switch mode {
	case 3, 4:
		st.SetCode(in, inner)
		st.SetNonce(in, 1)
		st.SetState(o, common.Hash{31: 6}, common.Hash{31: 9})
		me = o
	case 0, 1:
		st.SetCode(in, inner)
		st.SetNonce(in, 1)
		st.SetState(in, common.Hash{31: 6}, common.Hash{31: 9})
		st.AddBalance(in, big.NewInt(100), qkc)
	case 2:
		to, data = nil, inner
		me = vm.CreateAddress(a, verifKey0(), 0)
		st.AddBalance(me, big.NewInt(100), qkc) // funded before it exists
	}
	if mode == 1 {
		fwd = verifBig("fwd", verifU128)
		h.Difficulty = fwd
		h.Number = verifsym.U64r("innergas", 1, 1<<20)
		st.SetCode(o, verifCat([]byte{0x60, 0, 0x60, 0, 0x60, 0, 0x60, 0, 0x44, 0x73}, verifAddrB(3), []byte{0x43, 0xf1, 0x60, 1, 0x01, 0x60, 0, 0x55, 0x00})) // SSTORE(0, 1+CALL(number, inner, difficulty))
		to = &o
	}
	if mode >= 3 {
		h.Number = verifsym.U64r("innergas", 1, 1<<20)
		call := verifCat([]byte{0x60, 0, 0x60, 0, 0x60, 0, 0x60, 0, 0x73}, verifAddrB(3), []byte{0x43, 0xf4})
		if mode == 4 {
			call = verifCat([]byte{0x60, 0, 0x60, 0, 0x60, 0, 0x60, 0, 0x60, 0, 0x73}, verifAddrB(3), []byte{0x43, 0xf2})
		}
		st.SetCode(o, verifCat(call, []byte{0x60, 1, 0x01, 0x60, 0, 0x55, 0x00})) // SSTORE(0, 1+DELEGATECALL(number, inner))
		to = &o
	}
	child := vm.CreateAddress(me, verifKey0(), 1)
	committed := map[common.Address][]*big.Int{}
	who := []common.Address{o, in, c, s, child, me}
	for _, x := range who {
		committed[x] = []*big.Int{st.GetBalance(x, qkc), verifB(st.GetNonce(x))}
	}
	st.Finalise(true)
	gas := verifsym.U64r("gas", 21000, 1<<23)
	gp := new(GasPool).AddGas(1 << 24)
	tx := verifTx(a, to, 0, value, gas, new(big.Int), 0, 0, data, qkc, qkc)
	r, _, err := verifApplyH(st, gp, h, tx)
	if err != nil {
		return
	}
	verifsym.Observe("status", r.Status)
	ok := r.Status == 1
	outer := st.GetState(o, common.Hash{}) // 0: outer did not finish, 1: inner failed, 2: inner succeeded
	recv := value
	had := int64(100)
	if mode >= 3 {
		had = 1000
	}
	if mode == 1 || mode >= 3 {
		verifsym.Observe("inner", outer)
		if !ok {
			verifsym.Reach("outeroog")
			verifsym.Assert(outer == common.Hash{}, "failed outer call wrote storage")
		} else {
			verifsym.Assert(outer == common.Hash{31: 1} || outer == common.Hash{31: 2}, "outer result")
		}
		ok = outer == common.Hash{31: 2}
		if mode == 1 {
			recv = fwd
		}
	}
	logs := len(st.Logs())
	if ok {
		verifsym.Reach("all")
		if mode == 2 {
			verifsym.Reach("create")
		}
		verifsym.Assert(ei == 0 || ei == 3 || ei == 4 && mode != 2, "reverting code or creation of too much code reported success")
		if mode == 2 {
			verifsym.Assert(len(st.GetCode(me)) == []int{0, 0, 0, 100}[ei], "code of the created contract")
		}
		verifsym.Assert(st.GetState(me, common.Hash{31: 5}) == common.Hash{31: 1} && st.GetState(me, common.Hash{31: 6}) == common.Hash{}, "storage written")
		verifsym.Assert(verifEq(st.GetBalance(c, qkc), big.NewInt(60)), "value received by the callee and beneficiary")
		verifsym.Assert(verifEq(st.GetBalance(child, qkc), big.NewInt(1)) && st.GetNonce(child) == 1, "contract created")
		verifsym.Assert(verifEq(st.GetBalance(me, qkc), verifAdd(big.NewInt(had-4), recv)), "balance of the executing contract")
		verifsym.Assert(st.HasSuicided(s) || !st.Exist(s), "self-destructed contract is gone")
		verifsym.Assert(logs == 1, "log kept")
		return
	}
	verifsym.Reach("none")
	verifsym.Assert(logs == 0, "log of a failed call kept")
	verifsym.Assert(st.GetState(me, common.Hash{31: 5}) == common.Hash{}, "storage written by a failed call")
	if mode != 2 {
		verifsym.Assert(st.GetState(me, common.Hash{31: 6}) == common.Hash{31: 9}, "storage cleared by a failed call")
	} else {
		verifsym.Assert(len(st.GetCode(me)) == 0, "code of a failed creation kept")
	}
	verifsym.Assert(st.Exist(s) && !st.HasSuicided(s), "contract destroyed by a failed call")
	for _, x := range who {
		want := committed[x]
		if x == o && (mode == 1 || mode >= 3) && r.Status == 1 {
			verifsym.Assert(verifEq(st.GetBalance(o, qkc), verifAdd(want[0], value)), "caller's balance")
			verifsym.Assert(st.GetNonce(o) == 1, "nonce of the caller")
			continue
		}
		verifsym.Assert(verifEq(st.GetBalance(x, qkc), want[0]), "balance moved by a failed call")
		verifsym.Assert(verifEq(verifB(st.GetNonce(x)), want[1]), "nonce changed by a failed call")
	}
	if r.Status == 0 {
		verifsym.Assert(verifEq(st.GetBalance(a, qkc), bal) && st.GetNonce(a) == 1, "a failed transaction costs its sender gas and a nonce only")
	}
}
