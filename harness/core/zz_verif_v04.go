package core

import (
	"math/big"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/verifsym"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
)

// Which transactions a shard admits: the right network, the right shard, a
// reachable destination, enough gas and funds, and (version 2) the EIP-155 domain.
//verif:harness V04 time=300 reach=accepted,refused,future,v2
//verif:bounds real shard chain (2 chains x 2 shards); signed transactions with version 0-3, network {own, other, Ethereum chain id}, from/to shard keys from 4 values, 2 tokens, 5 gas amounts; arbitrary block gas use/limit, account nonce, balance (≤2^128), block time and EVM/EIP-155 activation times
func VerifH_V04_Admission() {
	key, err := crypto.HexToECDSA("45a915e4d060149eb4365960e6a7a45f334393093061116b197e3240065ff2d8")
	if err != nil {
		panic(err)
	}
	owner := crypto.PubkeyToAddress(key.PublicKey)
	acc := account.Address{Recipient: verifAddr(1)}
	q := uint64(10000000)
	env := setUp(&acc, &q, nil)
	m := verifShardState(env)
	root1 := m.rootTip.Header().CreateBlockToAppend(nil, nil, nil, nil, nil)
	root1.AddMinorBlockHeader(m.CurrentBlock().Header())
	root1.Finalize(nil, nil, common.Hash{})
	if _, err := m.AddRootBlock(root1); err != nil {
		panic(err)
	}
	cfg := m.clusterConfig.Quarkchain
	qkc := m.GetGenesisToken()
	version := uint32(verifsym.Choose("version", 4))
	focus := verifsym.Choose("focus", 4)
	network := uint32(3)
	if version == 2 {
		network = m.EthChainID()
	}
	fromKey, toKey := uint32(0), uint32(0)
	tok, gtok := qkc, qkc
	gas := uint64(40000)
	var data []byte
	create := false
	switch focus {
	case 0:
		network = []uint32{3, 4, m.EthChainID(), m.EthChainID() + 1, 0}[verifsym.Choose("network", 5)]
	case 1:
		keys := []uint32{0, 1, 2, 1 << 16, 5 << 16}
		fromKey, toKey = keys[verifsym.Choose("from", 5)], keys[verifsym.Choose("to", 5)]
		gas = []uint64{40000, m.xShardGasLimit.Uint64(), m.xShardGasLimit.Uint64() + 1}[verifsym.Choose("gas", 3)]
	case 2:
		tok = []uint64{qkc, 77}[verifsym.Choose("token", 2)]
		gas = []uint64{20999, 21000, 30000}[verifsym.Choose("gas", 3)]
		toKey = []uint32{0, 1}[verifsym.Choose("to", 2)]
		gtok = []uint64{qkc, 77}[verifsym.Choose("gasToken", 2)]
	case 3:
		switch verifsym.Choose("payload", 3) {
		case 1:
			data = []byte{1}
		case 2:
			create = true
			gas = 60000
		}
	}
	const nonce = 100
	var e *types.EvmTransaction
	if create {
		e = types.NewEvmContractCreation(nonce, big.NewInt(9), gas, big.NewInt(2), fromKey, toKey, network, version, data, gtok, tok)
	} else {
		e = types.NewEvmTransaction(nonce, verifAddr(2), big.NewInt(9), gas, big.NewInt(2), fromKey, toKey, network, version, data, gtok, tok)
	}
	types.VerifSign(e, key)
	tx := &types.Transaction{TxType: types.EvmTx, EvmTx: e}
	st, err := m.StateAt(m.CurrentBlock().Root())
	if err != nil {
		panic(err)
	}
	st.SetQuarkChainConfig(cfg)
	used, limit := verifsym.U64r("blockGasUsed", 0, 1<<40), verifsym.U64r("blockGasLimit", 0, 1<<40)
	st.SetGasUsed(new(big.Int).SetUint64(used))
	st.SetGasLimit(new(big.Int).SetUint64(limit))
	ts := verifsym.U64r("time", 0, 1<<40)
	st.SetTimeStamp(ts)
	cfg.EnableEvmTimeStamp = verifsym.U64r("evmTime", 0, 1<<40)
	cfg.EnableEIP155SignerTimestamp = verifsym.U64r("eip155Time", 0, 1<<40)
	have := verifsym.U64r("accountNonce", 0, 1<<40)
	st.SetNonce(owner, have)
	bal := verifBig("balance", verifU128)
	st.AddBalance(owner, bal, qkc)
	if tok != qkc {
		st.AddBalance(owner, big.NewInt(9), tok)
	}
	_, err = m.validateTx(tx, st, nil, nil, nil)
	verifsym.Observe("err", err != nil)

	shard := func(k uint32) (uint32, bool) { // full shard id
		c := k >> 16
		if c > 1 {
			return 0, false
		}
		return c<<16 | 2 | k&1, true
	}
	from, ok1 := shard(fromKey)
	to, ok2 := shard(toKey)
	cross := ok1 && ok2 && from != to
	ok := ok1 && ok2 && from == m.branch.Value && version <= 2
	if version == 2 {
		ok = ok && network == m.EthChainID() && ts >= cfg.EnableEIP155SignerTimestamp && fromKey>>16 == toKey>>16 && fromKey&0xffff == 0 && toKey&0xffff == 0 && tok == qkc && gtok == qkc
	} else {
		ok = ok && network == cfg.NetworkID
	}
	if cross && gas > m.xShardGasLimit.Uint64() {
		ok = false
	}
	if ts < cfg.EnableEvmTimeStamp && (create || len(data) > 0) {
		ok = false
	}
	if ok && have < nonce && nonce < have+MAX_FUTURE_TX_NONCE {
		verifsym.Reach("future")
		verifsym.Assert(err == nil, "a valid queued (future-nonce) transaction is refused")
		return
	}
	intrinsic := uint64(21000)
	if create {
		intrinsic = 53000
	}
	intrinsic += 68 * uint64(len(data))
	if cross {
		intrinsic += 9000
	}
	if have > nonce || gas < intrinsic || gtok != qkc || used+gas > limit {
		ok = false
	}
	cost := new(big.Int).SetUint64(2 * gas)
	if tok == qkc {
		cost.Add(cost, big.NewInt(9))
	}
	if bal.Cmp(cost) < 0 {
		ok = false
	}
	if err == nil {
		verifsym.Reach("accepted")
		if version == 2 {
			verifsym.Reach("v2")
		}
		verifsym.Assert(ok, "the shard admits a transaction that is not valid in it")
	} else {
		verifsym.Reach("refused")
		verifsym.Assert(!ok, "the shard refuses a valid transaction")
	}
}

// A transaction executes at most once, whatever its outcome.
//verif:harness V04 time=120 reach=again,failed
//verif:bounds one transaction (transfer, contract call that succeeds/reverts/fails, creation, cross-shard), any nonce, balances and price ≤ 2^128-1, any gas; applied twice
func VerifH_V04_Replay() {
	verifsym.OpaqueTxHash()
	st := verifState()
	qkc := st.GetQuarkChainConfig().GetDefaultChainTokenID()
	a, b, cb := verifAddr(1), verifAddr(2), verifAddr(9)
	kind := verifsym.Choose("kind", 6)
	nonce := uint64(5)
	if kind != 4 {
		nonce = verifsym.U64r("nonce", 0, 1<<63)
	}
	st.SetNonce(a, nonce)
	st.AddBalance(a, verifBig("bal", verifU128), qkc)
	st.SetTimeStamp(1 << 62)
	to := &b
	toKey := uint32(0)
	switch kind {
	case 1, 2, 3:
		st.SetNonce(b, 1)
		st.SetCode(b, verifCodes[kind-1])
	case 4:
		to = nil
	case 5:
		toKey = 1
	}
	tn := nonce
	if kind != 4 {
		tn = verifsym.U64r("txnonce", 0, 1<<63)
	}
	tx := verifTx(a, to, tn, verifBig("value", verifU128), verifsym.U64("gas"), verifBig("price", verifU64), 0, toKey, nil, qkc, qkc)
	gp := new(GasPool).AddGas(1 << 62)
	r, _, err := verifApply(st, gp, cb, tx)
	if err != nil {
		return
	}
	verifsym.Assert(tn == nonce, "a transaction ran with a nonce other than the account's")
	if r.Status == 0 {
		verifsym.Reach("failed")
	}
	verifsym.Assert(st.GetNonce(a) == nonce+1, "an executed transaction did not consume its nonce")
	bal, n := st.GetBalance(a, qkc), len(st.GetXShardList())
	_, _, err = verifApply(st, gp, cb, tx)
	verifsym.Reach("again")
	verifsym.Assert(err != nil, "the same transaction was executed twice")
	verifsym.Assert(verifEq(st.GetBalance(a, qkc), bal) && len(st.GetXShardList()) == n, "a replayed transaction had an effect")
}
