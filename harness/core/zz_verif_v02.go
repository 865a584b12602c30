package core

import (
	"math/big"

	"github.com/QuarkChain/goquarkchain/core/vm"
	qkcParams "github.com/QuarkChain/goquarkchain/params"
	"github.com/QuarkChain/goquarkchain/verifsym"
	"github.com/ethereum/go-ethereum/common"
)

// Source shard: what leaves the sender is exactly what the deposit carries plus
// the locally charged fee.
//verif:harness V02 time=120 reach=ok,err,failed
//verif:bounds one cross-shard transaction (transfer or creation), 0 or 2 payload bytes, before/after EVM activation; balances/value ≤ 2^256-1, price ≤ 2^128-1, any gas/pool/nonce; 2 transfer tokens; optional stake lock
func VerifH_V02_Source() {
	verifsym.OpaqueTxHash()
	st := verifState()
	qkc := st.GetQuarkChainConfig().GetDefaultChainTokenID()
	tok := []uint64{qkc, 12345}[verifsym.Choose("token", 2)]
	kind := verifsym.Choose("kind", 3)
	a, b, cb := verifAddr(1), verifAddr(2), verifAddr(9)
	all := []common.Address{a, b, cb, {}}
	st.AddBalance(a, verifBig("balA", verifU256), qkc)
	if tok != qkc {
		st.AddBalance(a, verifBig("tokA", verifU256), tok)
	}
	nonce := verifsym.U64r("nonce", 0, 1<<63)
	if kind == 1 {
		nonce = 41
	}
	st.SetNonce(a, nonce)
	ts := verifsym.U64("time")
	st.SetTimeStamp(ts)
	lock := verifsym.Bool("posw")
	if lock {
		st.SetSenderDisallowMap(map[common.Address]*big.Int{a: verifBig("locked", verifU128)})
	}
	gas := verifsym.U64("gas")
	price := verifBig("price", verifU128)
	value := verifBig("value", verifU256)
	pool := verifsym.U64("pool")
	gp := new(GasPool).AddGas(pool)
	mn := nonce
	if kind != 1 {
		mn = verifsym.U64r("txnonce", 0, 1<<63)
	}
	var data []byte
	to := &b
	intrinsic := uint64(21000 + 9000)
	if kind == 1 {
		to = nil
		data = []byte{1, 0}
		intrinsic = 53000 + 9000 + 68 + 4
	} else if kind == 2 {
		data = []byte{7, 0}
		intrinsic += 68 + 4
	}
	tx := verifTx(a, to, mn, value, gas, price, 0, 1, data, qkc, tok)
	q0, t0 := verifSum(st, qkc, all...), verifSum(st, tok, all...)
	r, _, err := verifApply(st, gp, cb, tx)
	verifsym.Observe("err", err)
	list := st.GetXShardList()
	if err != nil {
		verifsym.Reach("err")
		verifsym.Assert(len(list) == 0, "a refused transaction produced a deposit")
		return
	}
	verifsym.Assert(mn == nonce && st.GetNonce(a) == nonce+1, "cross-shard transaction executed with a wrong nonce or without advancing it")
	verifsym.Assert(gas >= intrinsic && pool >= gas, "executed without enough gas")
	if r.Status == 0 {
		verifsym.Reach("failed")
		verifsym.Assert(lock, "cross-shard transaction failed without reason")
		verifsym.Assert(len(list) == 0, "failed cross-shard transaction produced a deposit")
		fee := verifMul(verifB(gas), price)
		verifsym.Assert(verifEq(verifSum(st, qkc, all...), verifSub(q0, verifSub(fee, verifRate(st, fee)))), "failed cross-shard transaction: default token not conserved")
		if tok != qkc {
			verifsym.Assert(verifEq(verifSum(st, tok, all...), t0), "failed cross-shard transaction moved value")
		}
		return
	}
	verifsym.Reach("ok")
	verifsym.Assert(len(list) == 1, "exactly one deposit per successful cross-shard transaction")
	d := list[0]
	evmOn := ts >= st.GetQuarkChainConfig().EnableEvmTimeStamp
	remote := uint64(0)
	if evmOn || to == nil {
		remote = gas - intrinsic
	}
	verifsym.Assert(verifEq(d.Value.Value, value) && d.TransferTokenID == tok && d.GasTokenID == qkc, "deposit carries a different amount or token")
	verifsym.Assert(verifEq(d.GasPrice.Value, price) && verifEq(d.GasRemained.Value, verifB(remote)), "deposit carries a different gas budget")
	verifsym.Assert(d.From.Recipient == a && d.From.FullShardKey == 0 && d.To.FullShardKey == 1 && d.TxHash == tx.Hash(), "deposit names wrong parties or shard")
	verifsym.Assert(d.CreateContract == (to == nil) && string(d.MessageData) == string(data) && d.RefundRate == 100 && !d.IsFromRootChain, "deposit flags")
	if to != nil {
		verifsym.Assert(d.To.Recipient == b, "deposit recipient")
	} else {
		k := uint32(0)
		verifsym.Assert(d.To.Recipient == vm.CreateAddress(a, &k, nonce+1), "deposit contract address")
	}
	local := verifMul(verifB(intrinsic-9000), price)
	minerFee := verifRate(st, local)
	// the sender keeps: balance - value - price*(intrinsic+remote)
	spent := verifMul(verifB(intrinsic+remote), price)
	left := verifSub(q0, verifSub(spent, minerFee))
	if tok == qkc {
		left = verifSub(left, value)
	} else {
		verifsym.Assert(verifEq(verifSum(st, tok, all...), verifSub(t0, value)), "token leaving the shard differs from the deposit")
	}
	verifsym.Assert(verifEq(verifSum(st, qkc, all...), left), "default token leaving the shard differs from deposit plus fees")
	verifsym.Assert(verifEq(st.GetBalance(cb, qkc), minerFee), "source miner fee")
}

// Destination shard: a deposit adds exactly what it carries.
//verif:harness V02 time=180 reach=ok,failed,early
//verif:bounds one deposit (transfer, contract call to one of 8 concrete contracts, creation with reverting/empty init code, root-chain deposit), amounts ≤ 2^256-1, price ≤ 2^128-1, gas ≤ 2^40, before/after EVM activation, refund rate 0..100, optional stake lock
func VerifH_V02_Destination() {
	verifsym.OpaqueTxHash()
	st := verifState()
	qkc := st.GetQuarkChainConfig().GetDefaultChainTokenID()
	tok := []uint64{qkc, 12345}[verifsym.Choose("token", 2)]
	a, b, c, cb := verifAddr(1), verifAddr(2), verifAddr(3), verifAddr(9)
	kind := verifsym.Choose("kind", 4) // 0 transfer 1 call 2 create 3 from root chain
	ts := verifsym.U64("time")
	st.SetTimeStamp(ts)
	st.SetBlockCoinbase(cb)
	st.SetGasLimit(verifB(1 << 41))
	ci := -1
	if kind == 1 {
		ci = verifsym.Choose("code", len(verifCodes))
		st.SetNonce(b, 1)
		st.SetCode(b, verifCodes[ci])
	}
	lock := kind == 0 && verifsym.Bool("posw")
	if lock {
		st.SetSenderDisallowMap(map[common.Address]*big.Int{a: verifBig("locked", verifU128)})
	}
	child := vm.CreateAddress(b, verifKey0(), 1)
	all := []common.Address{a, b, c, cb, {}, child}
	st.AddBalance(a, verifBig("balA", verifU128), qkc)
	value := verifBig("value", verifU256)
	price := verifBig("price", verifU128)
	gas := verifsym.U64r("gas", 0, 1<<40)
	rate := uint8(100)
	var data []byte
	if kind == 2 {
		data = [][]byte{nil, {0x60, 0, 0x60, 0, 0xfd}}[verifsym.Choose("init", 2)]
	}
	if kind == 0 {
		rate = uint8(verifsym.U64r("rate", 0, 100))
	}
	d := verifDepositB(a, b, value, price, gas, tok, qkc, data, kind == 2)
	d.RefundRate = rate
	d.IsFromRootChain = kind == 3
	newRule := verifsym.Bool("ddosfix")
	start := uint64(9000)
	if newRule {
		if kind == 3 {
			start = 0
		}
	} else if price.Sign() == 0 {
		start = 0
	}
	q0, t0 := verifSum(st, qkc, all...), verifSum(st, tok, all...)
	a0, b0 := st.GetBalance(a, tok), st.GetBalance(b, tok)
	usedGas := verifsym.U64r("usedBefore", 0, 1<<40)
	u0 := usedGas
	r, err := ApplyCrossShardDeposit(&qkcParams.DefaultConstantinople, &verifChain{st.GetQuarkChainConfig()}, verifHeader(cb, 1<<41), vm.Config{}, st, d, &usedGas, newRule, 3)
	verifsym.Assert(err == nil, "a deposit made its block impossible to execute")
	if err != nil {
		return
	}
	verifsym.Assert(st.GetNonce(a) == 0, "deposit changed the sender's nonce in the destination shard")
	if ts < st.GetQuarkChainConfig().EnableEvmTimeStamp {
		verifsym.Reach("early")
		verifsym.Assert(usedGas == u0+start, "gas of a deposit before EVM activation")
		fee := verifRate(st, verifMul(price, verifB(9000)))
		verifsym.Assert(verifEq(st.GetBalance(b, tok), verifAdd(b0, value)), "deposit not credited to its recipient")
		in := fee
		if tok == qkc {
			in = verifAdd(in, value)
		} else {
			verifsym.Assert(verifEq(verifSum(st, tok, all...), verifAdd(t0, value)), "deposit token total")
		}
		verifsym.Assert(verifEq(verifSum(st, qkc, all...), verifAdd(q0, in)), "deposit default-token total")
		return
	}
	used := usedGas - u0
	verifsym.Observe("used", used)
	verifsym.Observe("status", r.Status)
	verifsym.Assert(used <= gas+start, "deposit used more gas than it carried")
	verifsym.Assert(verifEq(st.GetGasUsed(), verifB(used)), "block gas counter for deposit")
	fee := verifMul(verifB(used), price)
	// everything the deposit carries arrives except the burnt share of the fee
	in := verifSub(verifMul(verifB(gas+start), price), verifSub(fee, verifRate(st, fee)))
	lost := new(big.Int)
	if tok == qkc {
		in = verifAdd(in, value)
	} else {
		if ci == 3 && r.Status == 1 {
			lost = verifAdd(b0, value)
		}
		verifsym.Assert(verifEq(verifSum(st, tok, all...), verifSub(verifAdd(t0, value), lost)), "deposit token total after execution")
	}
	verifsym.Assert(verifEq(verifSum(st, qkc, all...), verifAdd(q0, in)), "deposit default-token total after execution")
	verifsym.Assert(verifEq(st.GetBalance(cb, qkc), verifRate(st, fee)), "destination miner fee")
	if r.Status == 0 {
		verifsym.Reach("failed")
		verifsym.Assert(verifEq(st.GetBalance(b, tok), b0), "failed deposit execution credited the recipient")
		if tok != qkc {
			verifsym.Assert(verifEq(st.GetBalance(a, tok), verifAdd(a0, value)), "value of a failed deposit not returned to the sender")
		}
		return
	}
	verifsym.Reach("ok")
	if kind != 1 {
		verifsym.Assert(verifEq(st.GetBalance(b, tok), verifAdd(b0, value)), "deposit not credited to its recipient")
	}
}
