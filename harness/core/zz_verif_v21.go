package core

import (
	"math/big"

	"github.com/QuarkChain/goquarkchain/core/state"
	"github.com/QuarkChain/goquarkchain/core/vm"
	"github.com/QuarkChain/goquarkchain/verifsym"
	"github.com/ethereum/go-ethereum/common"
)

var (
	verifPreID     = common.HexToAddress("514b430001")
	verifPreMove   = common.HexToAddress("514b430002")
	verifPreDeploy = common.HexToAddress("514b430003")
	verifPreMint   = common.HexToAddress("514b430004")
	verifPreBal    = common.HexToAddress("514b430005")
)

func verifWord(x *big.Int) []byte { return common.LeftPadBytes(x.Bytes(), 32) }

// verifArgs is code that puts the input, a wide token id (the balance of an account) and
// an amount (the difficulty) in place; they are not in the input, whose price depends on
// every byte of it.
func verifArgs(over, amount bool) []byte {
	c := []byte{0x36, 0x60, 0, 0x60, 0, 0x37}
	if over {
		c = verifCat(c, []byte{0x73}, verifAddrB(32), []byte{0x31, 0x60, 32, 0x52})
	}
	if amount {
		c = append(c, 0x44, 0x60, 64, 0x52)
	}
	return c
}

// verifCall is code that calls an address with 96 bytes of input: CALL, CALLCODE, DELEGATECALL or STATICCALL
func verifCall(op int, to common.Address) []byte {
	return verifCallN(op, to, 96)
}

func verifCallN(op int, to common.Address, n byte) []byte {
	c := []byte{0x60, 32, 0x60, 0, 0x60, n, 0x60, 0}
	if op < 2 {
		c = append(c, 0x60, 0)
	}
	return verifCat(c, []byte{0x73}, to[:], []byte{0x5a, []byte{0xf1, 0xf2, 0xf4, 0xfa}[op]})
}

var (
	verifBit120 = new(big.Int).Lsh(big.NewInt(1), 120)
	verifKeep = []byte{0x60, 1, 0x01, 0x60, 0, 0x55}                    // SSTORE(0, 1+result)
	verifAsk  = verifCat(verifCall(0, verifPreID), []byte{0x50})        // ask for the token
	verifPay5 = verifCat([]byte{0x60, 0, 0x60, 0, 0x60, 0, 0x60, 0, 0x60, 5, 0x73}, verifAddrB(9), []byte{0x5a, 0xf1, 0x50})
)

func verifContract(st *state.StateDB, a common.Address, code ...[]byte) {
	st.SetCode(a, verifCat(code...))
	st.SetNonce(a, 1)
}

// verifTokenArg chooses a token for a native-token operation: the default one, another
// one, or anything above the largest id (over), such as a valid id plus 2^64.
func verifTokenArg(st *state.StateDB) (tok uint64, over bool) {
	switch verifsym.Choose("token", 3) {
	case 0:
		return 35760, false
	case 1:
		return 990, false
	}
	n := []uint{63, 64, 65, 255}[verifsym.Choose("over", 4)]
	lo, hi := new(big.Int).Lsh(big.NewInt(1), n), new(big.Int).Lsh(big.NewInt(1), n+1)
	if n == 63 {
		lo = big.NewInt(4873763662273663092)
	}
	st.AddBalance(verifAddr(32), verifsym.Big("overid", lo, verifSub(hi, big.NewInt(1))), 35760)
	return 0, true
}

func verifWide(x uint64, to common.Address) []byte {
	return verifCat(common.LeftPadBytes(to[:], 32), verifWord(verifB(x)))
}

// Moving a native token out of a contract moves exactly the amount from that contract
// to the recipient, or nothing: never more than the contract has, never inside a static
// call, never to a contract that does not ask which token it got; and the token of the
// call it was made in is not changed by it.
//
//verif:harness V21 time=150 ttime=300 reach=moved,refused,static
//verif:bounds a contract calling the operation by CALL, CALLCODE, DELEGATECALL or STATICCALL, itself called by a transaction paying in either of two tokens or through a static call; recipient an account, a new account, a contract that asks for the token or not, or the operation itself; the default token, another, or any id above the maximum; any 256-bit amount, any balances 2^120..2^128-1, gas 2^21 (21000..2^21 for CALL with a valid token)
func VerifH_V21_Transfer() {
	h := verifHeader(verifAddr(8), 1<<40)
	verifsym.OpaqueTxHash()
	st := verifState()
	st.SetTimeStamp(1 << 40)
	st.SetFullShardKey(0)
	a, o, x, p, n, q, w, e := verifAddr(1), verifAddr(2), verifAddr(3), verifAddr(4), verifAddr(5), verifAddr(6), verifAddr(7), verifAddr(9)
	toks := []uint64{35760, 990}
	op, static := verifsym.Choose("op", 4), verifsym.Choose("static", 2) == 1
	var outer uint64 = 35760
	if !static {
		outer = toks[verifsym.Choose("outer", 2)]
	}
	to := []common.Address{p, n, q, w, verifPreMove}[verifsym.Choose("to", 5)]
	tok, over := verifTokenArg(st)
	v := verifsym.Big("amount", verifZero, verifU256)
	h.Difficulty = v
	for _, t := range toks {
		st.AddBalance(a, new(big.Int).Lsh(big.NewInt(1), 255), t)
		st.AddBalance(x, verifsym.Big("bal", verifBit120, verifU128), t)
	}
	st.AddBalance(p, big.NewInt(1), 35760)
	verifContract(st, q, verifCall(0, verifPreID), []byte{0x50, 0x60, 0, 0x51, 0x60, 0, 0x55, 0x00}) // SSTORE(0, token)
	verifContract(st, w, []byte{0x60, 7, 0x60, 0, 0x55, 0x00})
	dest := x
	if static {
		dest = o
		verifContract(st, x, verifArgs(over, true), verifCall(op, verifPreMove), []byte{0x60, 0, 0x52, 0x60, 32, 0x60, 0, 0xf3}) // return the result
		verifContract(st, o, verifArgs(false, false), verifCall(3, x), []byte{0x50, 0x60, 0, 0x51}, verifKeep, []byte{0x00})
	} else {
		verifContract(st, x, verifAsk, verifArgs(over, true), verifCall(op, verifPreMove), verifKeep, verifPay5, []byte{0x00})
	}
	paid := verifsym.Big("paid", verifZero, verifU128)
	bal := map[uint64]*big.Int{}
	for _, t := range toks {
		bal[t] = st.GetBalance(x, t)
	}
	st.Finalise(true)
	gas := uint64(1 << 21)
	if op == 0 && !over {
		gas = verifsym.U64r("gas", 21000, 1<<21)
	}
	r, _, err := verifApplyH(st, new(GasPool).AddGas(1<<24), h, verifTx(a, &dest, 0, paid, gas, new(big.Int), 0, 0, verifWide(tok, to), 35760, outer))
	if err != nil {
		return
	}
	slot := st.GetState(dest, common.Hash{})
	done := slot == common.Hash{31: 2}
	if !static && r.Status == 1 {
		bal[outer] = verifAdd(bal[outer], paid)
	}
	verifsym.Observe("done", done)
	if done {
		verifsym.Assert(r.Status == 1, "a failed transaction wrote storage")
	}
	want := !over && to != verifPreMove && (to != w || tok == 35760 || v.Sign() == 0) && op != 3 && !static
	if want {
		want = bal[tok].Cmp(v) >= 0
	}
	if want && r.Status == 1 && gas < 400000 {
		want = done // may have run out of gas
	}
	if r.Status == 0 {
		want = false
	}
	if static {
		verifsym.Reach("static")
	}
	verifsym.Assert(done == want, "the operation succeeds exactly if it is allowed and covered")
	if done {
		verifsym.Reach("moved")
		bal[tok] = verifSub(bal[tok], v)
	} else {
		verifsym.Reach("refused")
	}
	for _, t := range toks {
		got := new(big.Int)
		if done && t == tok {
			got = v
		}
		if to != verifPreMove {
			verifsym.Assert(verifEq(st.GetBalance(to, t), func() *big.Int {
				if to == p && t == 35760 {
					return verifAdd(got, big.NewInt(1))
				}
				return got
			}()), "the recipient has exactly what was moved")
		}
		five := st.GetBalance(e, t)
		if t != outer || static || r.Status == 0 || bal[t].Cmp(big.NewInt(5)) < 0 {
			verifsym.Assert(five.Sign() == 0, "a later payment was made in another token")
		} else if gas >= 400000 {
			verifsym.Assert(verifEq(five, big.NewInt(5)), "a later payment was not made in the token of the call")
		}
		verifsym.Assert(verifEq(verifAdd(st.GetBalance(x, t), five), bal[t]), "the contract has exactly what is left")
	}
	if done && to == q {
		verifsym.Assert(st.GetState(q, common.Hash{}) == common.BigToHash(new(big.Int).SetUint64(tok)), "the recipient is told another token")
	}
}

// New native tokens come only from the contract that auctions them: on chain 0, never
// the default token, never in a static call, and exactly the amount asked for.
//
//verif:harness V21 time=100 ttime=200 reach=minted,refused,static
//verif:bounds the auction contract or another, directly, delegated to by the auction contract, or in a static call, using CALL, CALLCODE, DELEGATECALL or STATICCALL on chain 0 or 1; an existing or new recipient; the default token, another, or any id above the maximum; any 256-bit amount; gas 21000..2^20
func VerifH_V21_Mint() {
	h := verifHeader(verifAddr(8), 1<<40)
	verifsym.OpaqueTxHash()
	st := verifState()
	st.SetTimeStamp(1 << 40)
	vm.PrecompiledContractsByzantium[verifPreMint].SetEnableTime(0)
	chain := verifsym.Choose("chain", 2)
	st.SetFullShardKey(uint32(chain) << 16)
	auction := vm.SystemContracts[vm.NON_RESERVED_NATIVE_TOKEN].Address()
	a, o, x, p, n := verifAddr(1), verifAddr(2), verifAddr(3), verifAddr(4), verifAddr(5)
	op, ctx := verifsym.Choose("op", 4), verifsym.Choose("context", 4)
	tok, over := verifTokenArg(st)
	who, dest := x, x
	switch ctx { // 0: x calls it, 1: the auction contract, 2: x, delegated to by the auction contract, 3: the auction contract in a static call
	case 1:
		who, dest = auction, auction
	case 2:
		dest = auction
		verifContract(st, auction, verifArgs(false, false), verifCall(0, x), []byte{0x50, 0x60, 0, 0x51}, verifKeep, []byte{0x00})
	case 3:
		who, dest = auction, o
		verifContract(st, o, verifArgs(false, false), verifCall(3, auction), []byte{0x50, 0x60, 0, 0x51}, verifKeep, []byte{0x00})
	}
	if ctx < 2 {
		verifContract(st, who, verifArgs(over, true), verifCall(op, verifPreMint), verifKeep, []byte{0x00})
	} else {
		verifContract(st, who, verifArgs(over, true), verifCall(op, verifPreMint), []byte{0x60, 0, 0x52, 0x60, 32, 0x60, 0, 0xf3})
	}
	to := []common.Address{p, n}[verifsym.Choose("to", 2)]
	v := verifsym.Big("amount", verifZero, verifU256)
	h.Difficulty = v
	st.AddBalance(p, big.NewInt(1), 35760)
	had := verifsym.Big("had", verifBit120, verifU128)
	st.AddBalance(p, had, 990)
	st.AddBalance(a, verifU128, 35760)
	st.Finalise(true)
	gas := verifsym.U64r("gas", 21000, 1<<20)
	r, _, err := verifApplyH(st, new(GasPool).AddGas(1<<24), h, verifTx(a, &dest, 0, new(big.Int), gas, new(big.Int), uint32(chain)<<16, uint32(chain)<<16, verifWide(tok, to), 35760, 35760))
	if err != nil {
		return
	}
	done := st.GetState(dest, common.Hash{}) == common.Hash{31: 2}
	want := r.Status == 1 && chain == 0 && ctx == 1 && op < 2 && !over && tok != 35760 && v.Sign() != 0
	if want && gas < 200000 {
		want = done
	}
	if ctx == 3 {
		verifsym.Reach("static")
	}
	verifsym.Assert(done == want, "tokens are minted exactly if the auction contract asks for it")
	got, got2 := new(big.Int), new(big.Int)
	if done {
		verifsym.Reach("minted")
		got = v
	} else {
		verifsym.Reach("refused")
	}
	if to == p {
		got2 = big.NewInt(1)
		got = verifAdd(got, had)
	}
	verifsym.Assert(verifEq(st.GetBalance(to, 990), got), "exactly the amount is minted")
	verifsym.Assert(verifEq(st.GetBalance(to, 35760), got2), "the default token is never minted")
}

// A contract asking for a balance is told the exact balance, and asking for the token it
// was called with is told that token.
//
//verif:harness V21 time=60 ttime=100 reach=told,refused
//verif:bounds any balance up to 2^128 of the default token or another, any id above the maximum; gas 21000..2^22
func VerifH_V21_Balance() {
	verifsym.OpaqueTxHash()
	st := verifState()
	st.SetTimeStamp(1 << 40)
	st.SetFullShardKey(0)
	vm.PrecompiledContractsByzantium[verifPreBal].SetEnableTime(0)
	a, x, p := verifAddr(1), verifAddr(3), verifAddr(4)
	op := verifsym.Choose("op", 4)
	tok, over := verifTokenArg(st)
	verifContract(st, x, verifArgs(over, false), verifCall(op, verifPreBal), verifKeep, []byte{0x60, 0, 0x51, 0x60, 1, 0x55, 0x00})
	bals := map[uint64]*big.Int{35760: verifsym.Big("b0", verifBit120, verifU128), 990: verifsym.Big("b1", verifBit120, verifU128)}
	for _, t := range []uint64{35760, 990} {
		st.AddBalance(p, bals[t], t)
	}
	st.AddBalance(a, verifU128, 35760)
	st.Finalise(true)
	gas := verifsym.U64r("gas", 21000, 1<<22)
	r, _, err := verifApplyH(st, new(GasPool).AddGas(1<<24), verifHeader(verifAddr(8), 1<<40), verifTx(a, &x, 0, new(big.Int), gas, new(big.Int), 0, 0, verifWide(tok, p), 35760, 35760))
	if err != nil || r.Status == 0 {
		return
	}
	done := st.GetState(x, common.Hash{}) == common.Hash{31: 2}
	verifsym.Assert(done && !over || !done && (over || gas < 100000), "an answer exactly for a valid token id")
	if !done {
		verifsym.Reach("refused")
		return
	}
	verifsym.Reach("told")
	verifsym.Assert(st.GetState(x, common.Hash{31: 1}).Big().Cmp(bals[tok]) == 0, "the exact balance")
}

// The system contracts are deployed by anyone, once, at their own addresses, with their
// own code, on the chains and from the time they are meant for; no input does anything else.
//
//verif:harness V21 time=60 ttime=100 reach=deployed,refused
//verif:bounds any 256-bit index (also a short input), chain 0 or 1, any enabling time, already deployed or not, CALL or STATICCALL, directly or inside a static call
func VerifH_V21_Deploy() {
	h := verifHeader(verifAddr(8), 1<<40)
	verifsym.OpaqueTxHash()
	st := verifState()
	st.SetTimeStamp(1 << 40)
	chain := verifsym.Choose("chain", 2)
	st.SetFullShardKey(uint32(chain) << 16)
	a, o, x := verifAddr(1), verifAddr(2), verifAddr(3)
	op, static := verifsym.Choose("op", 4), verifsym.Choose("static", 2) == 1
	dest := x
	idx, n, put := new(big.Int), byte(0), []byte(nil)
	if verifsym.Choose("empty", 2) == 0 {
		idx, n, put = verifsym.Big("index", verifZero, verifU256), 32, []byte{0x44, 0x60, 0, 0x52}
	}
	h.Difficulty = idx
	if static {
		dest = o
		verifContract(st, x, put, verifCallN(op, verifPreDeploy, n), []byte{0x60, 0, 0x52, 0x60, 32, 0x60, 0, 0xf3})
		verifContract(st, o, verifArgs(false, false), verifCall(3, x), []byte{0x50, 0x60, 0, 0x51}, verifKeep, []byte{0x00})
	} else {
		verifContract(st, x, put, verifCallN(op, verifPreDeploy, n), verifKeep, []byte{0x00})
	}
	i := 0
	if idx.Cmp(big.NewInt(3)) <= 0 {
		for i = 1; i < 3 && idx.Cmp(big.NewInt(int64(i))) != 0; i++ {
			if idx.Sign() == 0 {
				break
			}
		}
	}
	enabled := verifsym.U64("enabled")
	vm.SystemContracts[2].SetTimestamp(enabled)
	vm.SystemContracts[3].SetTimestamp(enabled)
	had := verifsym.Choose("deployed", 2) == 1
	if had && i > 0 {
		verifContract(st, vm.SystemContracts[i].Address(), []byte{1})
	}
	st.AddBalance(a, verifU128, 35760)
	st.Finalise(true)
	r, _, err := verifApplyH(st, new(GasPool).AddGas(1<<24), h, verifTx(a, &dest, 0, new(big.Int), 1<<23, new(big.Int), uint32(chain)<<16, uint32(chain)<<16, nil, 35760, 35760))
	verifsym.Assert(err == nil && r.Status == 1, "the transaction runs")
	done := st.GetState(dest, common.Hash{}) == common.Hash{31: 2}
	want := i > 0 && !had && !static && op != 3 && (i != 2 || chain == 0) && (i == 1 || enabled <= 1600000000)
	verifsym.Assert(done == want, "deployed exactly if allowed")
	for k := 1; k <= 3; k++ {
		code := st.GetCode(vm.SystemContracts[k].Address())
		verifsym.Assert((len(code) > 1) == (want && k == i), "code at the address of the system contract")
	}
	if want {
		verifsym.Reach("deployed")
	} else {
		verifsym.Reach("refused")
	}
}
