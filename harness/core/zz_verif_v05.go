package core

import (
	"math/big"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/verifsym"
	"github.com/ethereum/go-ethereum/common"
)

// The gas a transaction needs before it runs: a base for a call or a creation,
// per payload byte by whether it is zero, and the fee for crossing shards.
//
//verif:harness V05 time=60 reach=create,call,cross
//verif:bounds payloads of 0..4 arbitrary bytes, call or creation, in-shard or cross-shard
func VerifH_V05_Intrinsic() {
	n := verifsym.Choose("len", 5)
	data := make([]byte, n)
	want := uint64(21000)
	create, cross := verifsym.Bool("create"), verifsym.Bool("cross")
	for i := range data {
		data[i] = verifsym.U8("data")
		want += verifsym.Ite64(data[i] == 0, 4, 68)
	}
	if create {
		want += 32000
		verifsym.Reach("create")
	} else {
		verifsym.Reach("call")
	}
	if cross {
		want += 9000
		verifsym.Reach("cross")
	}
	g, err := IntrinsicGas(data, create, cross)
	verifsym.Assert(err == nil && g == want, "intrinsic gas")
}

// A block is taken exactly if its transactions fit: deposits run until the
// cross-shard share is used up, what is left of that share is not available to
// the transactions of the block, and each transaction must fit with all of its
// gas into what is left when its turn comes.
//
//verif:harness V05 time=150 ttime=600 paths=50000 steps=400000000 reach=fits,full,xfull,cross
//verif:bounds all gas limits and cross-shard gas limits below 2^32; 0..2 (thorough 3) deposits, 0..2 (thorough 3) transactions with gas 21000, 50000 or 10^6 or cross-shard with 40000; blocks given and blocks assembled
func VerifH_V05_Block() {
	verifsym.Feeds()
	s := verifNewShard()
	m := s.m
	s.addRoot(0, 0, big.NewInt(1<<20), 1)
	s.addMinor(0, 1, 1)
	nd := verifsym.Choose("deposits", verifsym.Bound("deposits", 3, 4))
	var deps []*types.CrossShardTransactionDeposit
	for i := 0; i < nd; i++ {
		d := verifPlainDeposit(35760)
		d.TxHash[1] = byte(i)
		deps = append(deps, d)
	}
	s.addDeposit(1, deps...)
	s.settle()
	gl := verifsym.U64r("gaslimit", 0, 1<<32-1)
	xl := verifsym.U64r("xgaslimit", 0, 1<<32-1)
	verifsym.Assume(xl < gl)
	m.gasLimit, m.xShardGasLimit = verifB(gl), verifB(xl)
	used := uint64(0)
	run := 0
	for run < nd+1 {
		if run > 0 { // the first is the reward of the root block's miner, which costs nothing
			used += 9000
		}
		run++
		if used >= xl {
			break
		}
	}
	if run < nd+1 {
		verifsym.Reach("xfull")
	}
	limit := gl - verifsym.Ite64(used < xl, xl-used, 0)
	xused := used
	var txs []*types.Transaction
	fits := true
	for i, n := 0, verifsym.Choose("txs", verifsym.Bound("txs", 3, 4)); i < n; i++ {
		k := verifsym.Choose("kind", 4)
		gas, cost := []uint64{21000, 50000, 1000000, 40000}[k], uint64(21000)
		to := account.Address{Recipient: verifAddr(9), FullShardKey: 0}
		price, nonce := uint64(1), uint64(i)
		if k == 3 {
			to.FullShardKey = 1 // the fee for crossing is used where it arrives
		}
		txs = append(txs, createTransferTransaction(m, s.key, s.from, to, big.NewInt(1), &gas, &price, &nonce, nil, nil, nil))
		if used+gas > limit {
			fits = false
		}
		if k == 3 && gas > xl {
			fits = false
		}
		used += cost
		if k == 3 {
			verifsym.Reach("cross")
		}
	}
	coinbase := account.Address{Recipient: verifAddr(5), FullShardKey: 0}
	pr := s.roots[s.tip].Hash()
	b := m.CurrentBlock().CreateBlockToAppend(nil, nil, &coinbase, nil, m.gasLimit, m.xShardGasLimit, nil, nil, &pr)
	for _, t := range txs {
		b.AddTx(t)
	}
	st, _, _, _, list, err := m.runBlock(b)
	verifsym.Assert((err == nil) == fits, "block taken exactly if its transactions fit")
	if err != nil {
		verifsym.Reach("full")
		return
	}
	verifsym.Reach("fits")
	verifsym.Assert(len(list) == run, "deposits run until the share is used up")
	verifsym.Assert(st.GetXShardReceiveGasUsed().Uint64() == xused, "gas used by deposits")
	verifsym.Assert(st.GetGasUsed().Uint64() == used, "gas used by the block")
	verifsym.Assert(len(txs) == 0 || st.GetGasUsed().Uint64() <= gl, "no more gas than the limit")
}

// The gas a contract call pays: what its instructions cost, less what cleared
// storage gives back, of which no more than half of the cost; with less than
// that it fails, pays all of its gas and leaves the storage alone.
//
//verif:harness V05 time=60 reach=ok,short,capped,uncapped
//verif:bounds any gas limit up to 2^32; contracts that write 0..3 storage slots, each from zero or not, to zero or not
func VerifH_V05_Storage() {
	verifsym.OpaqueTxHash()
	st := verifState()
	qkc := st.GetQuarkChainConfig().GetDefaultChainTokenID()
	a, b := verifAddr(1), verifAddr(2)
	st.SetFullShardKey(0)
	st.AddBalance(a, verifU128, qkc)
	st.SetNonce(b, 1)
	cost, back := uint64(21000), uint64(0)
	var code []byte
	n := verifsym.Choose("slots", 4)
	was, set := make([]byte, n), make([]byte, n)
	for i := 0; i < n; i++ {
		was[i], set[i] = byte(verifsym.Choose("was", 2)), byte(verifsym.Choose("set", 2))*2
		if was[i] != 0 {
			st.SetState(b, common.Hash{31: byte(i)}, common.Hash{31: was[i]})
		}
		code = append(code, 0x60, set[i], 0x60, byte(i), 0x55)
		cost += 5006
		if was[i] == 0 && set[i] != 0 {
			cost += 15000
		}
		if was[i] != 0 && set[i] == 0 {
			back += 15000
		}
	}
	st.SetCode(b, append(code, 0))
	st.Finalise(false)
	if back > cost/2 {
		back = cost / 2
		verifsym.Reach("capped")
	} else if back > 0 {
		verifsym.Reach("uncapped")
	}
	gas := verifsym.U64r("gas", 21000, 1<<32)
	gp := new(GasPool).AddGas(1 << 33)
	r, used, err := verifApply(st, gp, verifAddr(9), verifTx(a, &b, 0, new(big.Int), gas, big.NewInt(1), 0, 0, nil, qkc, qkc))
	verifsym.Assert(err == nil, "call refused")
	verifsym.Assert((r.Status == 1) == (gas >= cost), "a call succeeds exactly if its gas covers the cost")
	verifsym.Assert(gp.Gas() == 1<<33-used, "the block is charged what the transaction used")
	want := set
	if r.Status == 1 {
		verifsym.Reach("ok")
		verifsym.Assert(used == cost-back, "gas used by a successful call")
	} else {
		verifsym.Reach("short")
		verifsym.Assert(used == gas, "gas used by a failed call")
		want = was
	}
	for i := range want {
		verifsym.Assert(st.GetState(b, common.Hash{31: byte(i)}) == common.Hash{31: want[i]}, "storage after the call")
	}
	verifsym.Assert(st.GetRefund() == 0, "no refund is carried over to the next transaction")
}
