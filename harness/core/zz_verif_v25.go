package core

import (
	"bytes"
	"math/big"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/core/vm"
	"github.com/QuarkChain/goquarkchain/verifsym"
	"github.com/ethereum/go-ethereum/common"
)

// what is called: verifAddr(30+i) has the i-th code
var verifCallees = [][]byte{
	nil,                     // an ordinary account
	{0x34, 0x60, 0, 0x55, 0}, // SSTORE(0, CALLVALUE)
	{0x60, 0, 0x60, 1, 0x55, 0x60, 0, 0x60, 2, 0x55, 0}, // clears two slots: half of the gas comes back
	{0x60, 0, 0x60, 0, 0xfd},                            // REVERT
	// calls the second one with all the gas it may, and fails if that does
	verifCat([]byte{0x60, 0, 0x60, 0, 0x60, 0, 0x60, 0, 0x60, 1, 0x73}, verifAddrB(31), []byte{0x5a, 0xf1, 0x60, 41, 0x57, 0x60, 0, 0x60, 0, 0xfd, 0x5b, 0}),
}

func verifCallShard(alloc map[common.Address]config.Allocation) *verifShard {
	s := verifNewShardWith(func(c *config.QuarkChainConfig) {
		c.EnableEvmTimeStamp = 0
		g := c.GetShardConfigByFullShardID(2).Genesis.Alloc
		for a, x := range alloc {
			g[account.Address{Recipient: a}] = x
		}
	})
	s.addRoot(0, 0, big.NewInt(1<<20), 1)
	return s
}

func verifCalleeAlloc() map[common.Address]config.Allocation {
	r := map[common.Address]config.Allocation{}
	for i, c := range verifCallees {
		r[verifAddr(byte(30+i))] = config.Allocation{Code: c, Balances: map[string]*big.Int{"QKC": big.NewInt(5)},
			Storage: map[common.Hash]common.Hash{verifSlot(1): verifSlot(1), verifSlot(2): verifSlot(1)}}
	}
	r[verifAddr(40)] = config.Allocation{Balances: map[string]*big.Int{"QKC": big.NewInt(1 << 24), "QI": big.NewInt(1 << 24)}}
	return r
}

// A gas estimate is the least gas limit with which the transaction succeeds; there is none
// only if it fails with the limit it came with (or the block's); nothing ends the process.
//
//verif:harness V25 time=120 ttime=600 paths=50000 steps=400000000 reach=estimated,refused
//verif:bounds transactions within the shard: to an account, three contracts (storing, clearing with a refund, reverting) and one that calls another, or creating one; all values up to 2^25 of a sender with 2^24; price 0 or 1; gas paid in either token; four stated gas limits
func VerifH_V25_Estimate() {
	s := verifCallShard(verifCalleeAlloc())
	kind := verifsym.Choose("kind", len(verifCallees)+1)
	from := account.Address{Recipient: verifAddr(40), FullShardKey: 0}
	value := verifsym.Big("value", verifZero, big.NewInt(1<<25))
	price := big.NewInt(int64(verifsym.Choose("price", 2)))
	start := []uint64{0, 50000, 22000, 13000000}[verifsym.Choose("gas", 4)]
	tok := []uint64{35760, 990}[verifsym.Choose("token", 2)]
	mk := func(gas uint64) *types.Transaction {
		to, data := verifAddr(byte(30+kind)), []byte(nil)
		if kind == len(verifCallees) {
			return verifTx(from.Recipient, nil, 0, value, gas, price, 0, 0, []byte{0x60, 5, 0x60, 0, 0xf3}, tok, 35760) // five bytes of code
		}
		return verifTx(from.Recipient, &to, 0, value, gas, price, 0, 0, data, tok, 35760)
	}
	run := func(gas uint64) bool {
		st, err := s.m.StateAt(s.m.CurrentBlock().Root())
		verifsym.Assert(err == nil, "head's state")
		st.SetQuarkChainConfig(s.m.clusterConfig.Quarkchain)
		st.SetGasLimit(s.m.gasLimit)
		st.SetTimeStamp(s.m.CurrentBlock().Time())
		tx := mk(gas)
		if ValidateTransaction(st, s.m.ChainConfig(), tx, &from) != nil {
			return false
		}
		r, _, err := verifApplyH(st, new(GasPool).AddGas(gas), s.m.CurrentBlock().Header(), tx)
		return err == nil && r.Status == types.ReceiptStatusSuccessful
	}
	root := s.m.CurrentBlock().Root()
	e, err := s.m.EstimateGas(mk(start), &from)
	if err == nil {
		verifsym.Reach("estimated")
		verifsym.Assert(run(uint64(e)), "a transaction with the estimated gas fails")
		verifsym.Assert(e == 21000 || !run(uint64(e)-1), "a transaction with less gas succeeds")
	} else {
		verifsym.Reach("refused")
		if start == 0 {
			start = s.m.gasLimit.Uint64()
		}
		verifsym.Assert(!run(start), "a transaction that succeeds cannot be estimated")
	}
	cur, err := s.m.State()
	verifsym.Assert(err == nil && cur.IntermediateRoot(true) == root && s.m.CurrentBlock().Root() == root, "an estimate changes the state")
}

// Estimated where it arrives, a transaction from another shard needs no money there.
//
//verif:harness V25 time=120 ttime=600 paths=50000 steps=400000000 reach=xestimated
//verif:bounds transactions from another shard to the same accounts and contracts; all values of up to 48 bits, all prices of up to 24 bits; two stated gas limits; as passed within the process or over the wire
func VerifH_V25_Arriving() {
	s := verifCallShard(verifCalleeAlloc())
	kind := verifsym.Choose("kind", len(verifCallees))
	to := account.Address{Recipient: verifAddr(byte(30 + kind)), FullShardKey: 0}
	from := account.Address{Recipient: verifAddr(50), FullShardKey: 0} // as the master sends it
	value := verifsym.Big("value", verifZero, new(big.Int).Lsh(big.NewInt(1), 48))
	price := verifsym.Big("price", verifZero, new(big.Int).Lsh(big.NewInt(1), 24))
	start := []uint64{0, 90000}[verifsym.Choose("gas", 2)]
	tx := verifTx(from.Recipient, &to.Recipient, 0, value, start, price, 1<<16, 0, nil, 35760, 35760)
	if verifsym.Choose("wire", 2) == 1 {
		tx.EvmTx.FromShardsize, tx.EvmTx.ToShardsize = 0, 0
	}
	run := func(gas uint64) bool {
		if gas < 21000 {
			return false
		}
		st, err := s.m.StateAt(s.m.CurrentBlock().Root())
		verifsym.Assert(err == nil, "head's state")
		st.SetQuarkChainConfig(s.m.clusterConfig.Quarkchain)
		st.SetGasLimit(s.m.gasLimit)
		st.SetTimeStamp(s.m.CurrentBlock().Time())
		d := verifDepositB(from.Recipient, to.Recipient, value, price, gas-21000, 35760, 35760, nil, false)
		r, err := ApplyCrossShardDeposit(s.m.ChainConfig(), s.m, s.m.CurrentBlock().Header(), vm.Config{}, st, d, new(uint64), true, 0)
		return err == nil && r.Status == types.ReceiptStatusSuccessful
	}
	e, err := s.m.EstimateGas(tx, &from)
	if err == nil {
		verifsym.Reach("xestimated")
		verifsym.Assert(run(uint64(e)), "a deposit with the estimated gas fails")
		verifsym.Assert(!run(uint64(e)-1), "a deposit with less gas succeeds")
		return
	}
	if start == 0 {
		start = s.m.gasLimit.Uint64()
	}
	verifsym.Assert(!run(start), "a deposit that succeeds cannot be estimated")
}

// verifMeter adds up what it is paid; asked with a byte of data, it answers with the sum, the
// block's number and time, and the call's value and caller
var verifMeter = []byte{0x36, 0x60, 13, 0x57, 0x34, 0x60, 0, 0x54, 0x01, 0x60, 0, 0x55, 0,
	0x5b, 0x60, 0, 0x54, 0x60, 0, 0x52, 0x43, 0x60, 0x20, 0x52, 0x42, 0x60, 0x40, 0x52, 0x34, 0x60, 0x60, 0x52, 0x33, 0x60, 0x80, 0x52, 0x60, 0xa0, 0x60, 0, 0xf3}

// A call answers from the block it names: its state, number and time. The same
// holds for balances, nonces, code and storage. None of it changes the chain.
//
//verif:harness V25 time=120 ttime=600 paths=50000 steps=400000000 reach=answered,none,short
//verif:bounds a chain of three blocks after a fork, each of which changes the contract asked; all heights (64 bits), all values up to 2^25 of a caller with 2^24 (or another with nothing), price 0 or 1, no gas limit or one of 25000
func VerifH_V25_Call() {
	meter := verifAddr(60)
	s := verifCallShard(map[common.Address]config.Allocation{
		meter:         {Code: verifMeter, Balances: map[string]*big.Int{"QKC": big.NewInt(5)}},
		verifAddr(40): {Balances: map[string]*big.Int{"QKC": big.NewInt(1 << 24)}}})
	pay := func(nonce uint64, v int64) *types.Transaction {
		gas := uint64(90000)
		return createTransferTransaction(s.m, s.key, s.from, account.Address{Recipient: meter, FullShardKey: 0}, big.NewInt(v), &gas, nil, &nonce, nil, nil, nil)
	}
	sums := []int64{0, 3, 7, 7}
	i := s.addMinor(0, 1, 1, pay(0, 3))
	s.addMinor(i, 1, 2, pay(1, 100)) // abandoned
	i = s.addMinor(i, 1, 3, pay(1, 4))
	i = s.addMinor(i, 1, 4)
	if s.m.CurrentBlock().Hash() != s.minors[i].Hash() {
		verifsym.Assert(false, "head")
	}
	root := s.m.CurrentBlock().Root()
	who := verifsym.Choose("caller", 2)
	from := account.Address{Recipient: verifAddr([]byte{40, 50}[who]), FullShardKey: 0}
	have := big.NewInt([]int64{1 << 24, 0}[who])
	height := verifsym.U64("height")
	value := verifsym.Big("value", verifZero, big.NewInt(1<<25))
	price := big.NewInt(int64(verifsym.Choose("price", 2)))
	gas := []uint64{0, 25000}[verifsym.Choose("gas", 2)]
	tx := verifTx(from.Recipient, &meter, 7, value, gas, price, 0, 0, []byte{1}, 35760, 35760)
	h := &height
	if verifsym.Choose("latest", 2) == 1 {
		h, height = nil, 3
	}
	got, err := s.m.ExecuteTx(tx, &from, h)
	if gas == 0 {
		gas = s.m.gasLimit.Uint64()
	}
	cost := verifAdd(value, verifMul(price, verifB(gas)))
	switch {
	case height > 3:
		verifsym.Reach("none")
		verifsym.Assert(err != nil, "a call on a block that is not there")
	case cost.Cmp(have) > 0:
		verifsym.Reach("short")
		verifsym.Assert(err != nil, "a call its caller cannot pay for")
	default:
		verifsym.Reach("answered")
		if err != nil {
			verifsym.Assert(false, "a call that succeeds is refused: "+err.Error())
		}
		b := s.m.GetBlockByNumber(height).(*types.MinorBlock)
		word := func(i int) *big.Int { return new(big.Int).SetBytes(got[32*i : 32*i+32]) }
		verifsym.Assert(len(got) == 160, "length of the answer")
		verifsym.Assert(word(0).Int64() == sums[height], "contents of the contract at that block")
		verifsym.Assert(word(1).Uint64() == height, "number of the block")
		verifsym.Assert(word(2).Uint64() == b.Time(), "time of the block")
		verifsym.Assert(verifEq(word(3), value), "value of the call")
		verifsym.Assert(verifEq(word(4), new(big.Int).SetBytes(from.Recipient[:])), "caller")
		hash := b.Hash()
		n, e1 := s.m.GetTransactionCount(s.from.Recipient, &hash)
		bal, e2 := s.m.GetBalance(meter, &hash)
		code, e3 := s.m.GetCode(meter, &hash)
		st, e4 := s.m.GetStorageAt(meter, common.Hash{}, &hash)
		verifsym.Assert(e1 == nil && e2 == nil && e3 == nil && e4 == nil, "queries about a block of the chain")
		verifsym.Assert(n == []uint64{0, 1, 2, 2}[height], "nonce at that block")
		verifsym.Assert(bal.GetTokenBalance(35760).Int64() == 5+sums[height], "balance at that block")
		verifsym.Assert(bytes.Equal(code, verifMeter), "code")
		verifsym.Assert(st.Big().Int64() == sums[height], "storage at that block")
	}
	cur, err := s.m.State()
	verifsym.Assert(err == nil && cur.IntermediateRoot(true) == root && s.m.CurrentBlock().Root() == root, "a call changes the state")
}

func verifSlot(b byte) (h common.Hash) { h[31] = b; return }
