package core

import (
	"math/big"

	"github.com/QuarkChain/goquarkchain/core/vm"
	"github.com/QuarkChain/goquarkchain/verifsym"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/params"
)

// In-shard plain transfer, all amounts symbolic, three token combinations and
// address aliasing (recipient = sender / coinbase = sender / coinbase = recipient).
//verif:harness V01 time=120 reach=ok,err,failed
//verif:bounds plain in-shard transfer; balances/value ≤ 2^256-1, gas price ≤ 2^128-1, gas and pool any uint64, any nonce; genesis gas token; 2 transfer tokens; 4 aliasing patterns
func VerifH_V01_Transfer() {
	verifsym.OpaqueTxHash()
	st := verifState()
	qkc := st.GetQuarkChainConfig().GetDefaultChainTokenID()
	tok := []uint64{qkc, 12345}[verifsym.Choose("token", 2)]
	a, b, cb := verifAddr(1), verifAddr(2), verifAddr(9)
	switch verifsym.Choose("alias", 4) {
	case 1:
		b = a
	case 2:
		cb = a
	case 3:
		cb = b
	}
	all := []common.Address{verifAddr(1), verifAddr(2), verifAddr(9), {}}
	st.AddBalance(verifAddr(1), verifBig("balA", verifU256), qkc)
	st.AddBalance(verifAddr(2), verifBig("balB", verifU256), qkc)
	if tok != qkc {
		st.AddBalance(verifAddr(1), verifBig("tokA", verifU256), tok)
	}
	nonce := verifsym.U64r("nonce", 0, 1<<63)
	st.SetNonce(a, nonce)
	st.SetTimeStamp(verifsym.U64("time"))
	lock := verifsym.Bool("posw")
	if lock {
		st.SetSenderDisallowMap(map[common.Address]*big.Int{a: verifBig("locked", verifU128)})
	}
	gas := verifsym.U64("gas")
	price := verifBig("price", verifU128)
	value := verifBig("value", verifU256)
	mn := verifsym.U64r("txnonce", 0, 1<<63)
	pool := verifsym.U64("pool")
	gp := new(GasPool).AddGas(pool)
	tx := verifTx(a, &b, mn, value, gas, price, 0, 0, nil, qkc, tok)
	q0, t0 := verifSum(st, qkc, all...), verifSum(st, tok, all...)
	a0, b0 := st.GetBalance(a, qkc), st.GetBalance(b, qkc)
	at0, bt0 := st.GetBalance(a, tok), st.GetBalance(b, tok)
	c0 := st.GetBalance(cb, qkc)
	mgval := verifMul(verifB(gas), price)
	r, used, err := verifApply(st, gp, cb, tx)
	verifsym.Observe("err", err)
	if err != nil {
		verifsym.Reach("err")
		ok := mn == nonce && a0.Cmp(mgval) >= 0 && gas >= 21000 && pool >= gas
		after := at0
		if tok == qkc {
			after = verifSub(at0, mgval)
		}
		verifsym.Assert(!(ok && after.Cmp(value) >= 0), "an affordable transfer with the right nonce and enough gas is refused")
		return
	}
	verifsym.Assert(mn == nonce, "a transaction executed with a nonce other than the account's")
	verifsym.Assert(st.GetNonce(a) == nonce+1, "nonce did not advance by exactly one")
	verifsym.Assert(pool >= gas && gas >= 21000, "executed without gas")
	verifsym.Assert(used >= 21000 && used <= gas, "gas used out of range")
	verifsym.Assert(gp.Gas() == pool-used, "gas pool not charged exactly the gas used")
	verifsym.Assert(st.GetGasUsed().Cmp(verifB(used)) == 0, "block gas counter")
	failed := r.Status == 0
	verifsym.Observe("used", used)
	verifsym.Observe("failed", failed)
	fee := verifMul(verifB(used), price)
	minerFee := verifRate(st, fee)
	burnt := verifSub(fee, minerFee)
	verifsym.Assert(verifEq(verifSum(st, qkc, all...), verifSub(q0, burnt)), "default token not conserved (total must fall by exactly the burnt fee share)")
	verifsym.Assert(verifEq(st.GetBlockFee()[qkc], minerFee), "block fee ledger")
	if tok != qkc {
		verifsym.Assert(verifEq(verifSum(st, tok, all...), t0), "transferred token not conserved")
	}
	if failed {
		verifsym.Reach("failed")
		verifsym.Assert(lock, "transfer failed without a reason")
		verifsym.Assert(used == gas, "locked sender must burn all gas")
		verifsym.Assert(verifEq(st.GetBalance(b, tok), bt0) || b == cb || b == a, "failed transfer moved value")
		return
	}
	verifsym.Reach("ok")
	verifsym.Assert(used == 21000, "plain transfer costs 21000")
	if a != b && a != cb && b != cb {
		verifsym.Assert(verifEq(st.GetBalance(cb, qkc), verifAdd(c0, minerFee)), "miner fee")
		verifsym.Assert(verifEq(st.GetBalance(b, tok), verifAdd(bt0, value)), "recipient credit")
		if tok == qkc {
			verifsym.Assert(verifEq(st.GetBalance(a, qkc), verifSub(verifSub(a0, fee), value)), "sender debit")
		} else {
			verifsym.Assert(verifEq(st.GetBalance(a, qkc), verifSub(a0, fee)), "sender gas debit")
			verifsym.Assert(verifEq(st.GetBalance(a, tok), verifSub(at0, value)), "sender token debit")
			verifsym.Assert(verifEq(st.GetBalance(b, qkc), b0), "recipient default-token balance changed")
		}
	}
}

//verif:harness V01 time=180 reach=ok,vmfail,err
//verif:bounds call of one of 8 concrete contracts (stop/revert/invalid/selfdestruct/call/create/call+revert/callcode) with a symbolic forwarded amount; amounts ≤ 2^256-1, gas ≤ 2^22, price ≤ 2^128-1
func VerifH_V01_Contract() {
	verifsym.OpaqueTxHash()
	st := verifState()
	qkc := st.GetQuarkChainConfig().GetDefaultChainTokenID()
	ci := verifsym.Choose("code", len(verifCodes))
	tok := []uint64{qkc, 12345}[verifsym.Choose("token", 2)]
	a, b, c, cb := verifAddr(1), verifAddr(2), verifAddr(3), verifAddr(9)
	child := vm.CreateAddress(b, verifKey0(), 1)
	all := []common.Address{a, b, c, cb, {}, child}
	st.SetTimeStamp(1 << 40)
	st.SetFullShardKey(0)
	st.SetNonce(b, 1)
	st.SetCode(b, verifCodes[ci])
	st.AddBalance(a, verifBig("balA", verifU256), qkc)
	st.AddBalance(b, verifBig("balB", verifU128), tok)
	if tok != qkc {
		st.AddBalance(a, verifBig("tokA", verifU256), tok)
	}
	gas := verifsym.U64r("gas", 0, 1<<22)
	price := verifBig("price", verifU128)
	value := verifBig("value", verifU256)
	fwd := verifBig("fwd", verifU256)
	h := verifHeader(cb, 1<<40)
	h.Difficulty = fwd
	gp := new(GasPool).AddGas(1 << 23)
	tx := verifTx(a, &b, 0, value, gas, price, 0, 0, nil, qkc, tok)
	q0, t0 := verifSum(st, qkc, all...), verifSum(st, tok, all...)
	bt0, ct0 := st.GetBalance(b, tok), st.GetBalance(c, tok)
	r, used, err := verifApplyH(st, gp, h, tx)
	verifsym.Observe("err", err)
	if err != nil {
		verifsym.Reach("err")
		return
	}
	verifsym.Observe("used", used)
	verifsym.Observe("status", r.Status)
	fee := verifMul(verifB(used), price)
	minerFee := verifRate(st, fee)
	verifsym.Assert(used <= gas, "gas used above limit")
	verifsym.Assert(gp.Gas() == (1<<23)-used, "gas pool")
	verifsym.Assert(verifEq(verifSum(st, qkc, all...), verifSub(q0, verifSub(fee, minerFee))), "default token not conserved by a contract call")
	if tok != qkc {
		// a self-destructing contract takes its non-default tokens with it, nothing else may vanish
		lost := new(big.Int)
		if ci == 3 && r.Status == 1 {
			lost.Add(bt0, value)
		}
		verifsym.Assert(verifEq(verifSum(st, tok, all...), verifSub(t0, lost)), "transferred token not conserved by a contract call")
	}
	if r.Status == 0 {
		verifsym.Reach("vmfail")
		verifsym.Assert(verifEq(st.GetBalance(b, tok), bt0) && verifEq(st.GetBalance(c, tok), ct0), "failed execution moved value")
		return
	}
	verifsym.Reach("ok")
	verifsym.Assert(ci != 1 && ci != 2 && ci != 6, "reverting contract reported success")
}


// Gas paid in a non-default token: the token manager's conversion (rate and
// price) is an arbitrary answer; the manager contract advances default tokens
// and receives the gas token.
//verif:harness V01 time=120 reach=ok,err
//verif:bounds gas paid in a non-default token with an arbitrary conversion answer (refund rate 0..100, price ≤ 2^128-1); plain transfer; amounts ≤ 2^256-1
func VerifH_V01_NativeGas() {
	verifsym.OpaqueTxHash()
	st := verifState()
	qkc := st.GetQuarkChainConfig().GetDefaultChainTokenID()
	const gt = uint64(777)
	conv := verifBig("converted", verifU128)
	rate := uint8(verifsym.U64r("rate", 0, 100))
	old := PayNativeTokenAsGas
	defer func() { PayNativeTokenAsGas = old }()
	PayNativeTokenAsGas = func(vm.StateDB, *params.ChainConfig, uint64, uint64, *big.Int) (uint8, *big.Int, error) {
		return rate, new(big.Int).Set(conv), nil
	}
	mgr := vm.SystemContracts[vm.GENERAL_NATIVE_TOKEN].Address()
	a, b, cb := verifAddr(1), verifAddr(2), verifAddr(9)
	all := []common.Address{a, b, cb, mgr, {}}
	st.SetTimeStamp(1 << 40)
	tok := []uint64{qkc, gt}[verifsym.Choose("token", 2)]
	st.AddBalance(a, verifBig("balA", verifU256), qkc)
	st.AddBalance(a, verifBig("gasA", verifU256), gt)
	st.AddBalance(mgr, verifBig("reserve", verifU256), qkc)
	gas := verifsym.U64("gas")
	price := verifBig("price", verifU128)
	value := verifBig("value", verifU256)
	gp := new(GasPool).AddGas(verifsym.U64("pool"))
	tx := verifTx(a, &b, 0, value, gas, price, 0, 0, nil, gt, tok)
	q0, g0, m0, mg0, a0 := verifSum(st, qkc, all...), verifSum(st, gt, all...), st.GetBalance(mgr, qkc), st.GetBalance(mgr, gt), st.GetBalance(a, qkc)
	z0 := st.GetBalance(common.Address{}, qkc)
	_, used, err := verifApply(st, gp, cb, tx)
	verifsym.Observe("err", err)
	if err != nil {
		verifsym.Reach("err")
		return
	}
	verifsym.Reach("ok")
	verifsym.Observe("used", used)
	fee := verifMul(verifB(used), conv)
	minerFee := verifRate(st, fee)
	total := verifMul(verifB(gas), conv)
	verifsym.Assert(conv.Sign() > 0, "free conversion accepted")
	verifsym.Assert(m0.Cmp(total) >= 0, "manager reserve overdrawn")
	verifsym.Assert(verifEq(st.GetBalance(mgr, qkc), verifSub(m0, total)), "manager did not pay exactly the converted gas budget")
	verifsym.Assert(verifEq(st.GetBalance(mgr, gt), verifAdd(mg0, verifMul(verifB(gas), price))), "manager did not receive exactly the gas budget in the gas token")
	verifsym.Assert(verifEq(verifSum(st, gt, all...), g0), "gas token not conserved")
	verifsym.Assert(verifEq(verifSum(st, qkc, all...), verifSub(q0, verifSub(fee, minerFee))), "default token not conserved when gas is paid in another token")
	verifsym.Assert(verifEq(st.GetBalance(cb, qkc), minerFee), "miner fee")
	back := new(big.Int).Div(verifMul(verifSub(total, fee), verifB(uint64(rate))), big.NewInt(100))
	want := verifAdd(a0, back)
	if tok == qkc {
		want = verifSub(want, value)
	}
	verifsym.Assert(verifEq(st.GetBalance(a, qkc), want), "sender refund is not the configured share of the unused gas")
	verifsym.Assert(verifEq(st.GetBalance(common.Address{}, qkc), verifAdd(z0, verifSub(verifSub(total, fee), back))), "unrefunded share not moved to the burn address")
}
