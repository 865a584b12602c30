package core

import (
	"math/big"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	qkcCommon "github.com/QuarkChain/goquarkchain/common"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/verifsym"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
)

// verifPoolTx: one of several kinds of transaction, by value and gas small or large
func (s *verifShard) verifPoolTx(kind int, key []byte, from account.Address, nonce, price uint64) *types.Transaction {
	to := account.Address{Recipient: verifAddr(9), FullShardKey: 0}
	gas, value, data := uint64(21000), int64(5), []byte(nil)
	switch kind {
	case 1: // most of what the account has
		value = 29000000
	case 2: // to another shard
		to.FullShardKey, gas = 1, 40000
	case 3: // a contract is called with data it has no use for
		data, gas = []byte{1, 0, 2}, 30000
	case 4: // more gas than fits with others
		gas = 6300000
	case 5: // most of what the account has, to another shard
		to.FullShardKey, gas, value = 1, 40000, 29000000
	case 6, 7: // a contract that stores something, with enough gas or not
		data = common.FromHex("600160025560006000f3")
		gas = []uint64{100000, 58000}[kind-6]
		k, _ := crypto.ToECDSA(key)
		t := types.NewEvmContractCreation(nonce, big.NewInt(value), gas, new(big.Int).SetUint64(price), 0, 0, 3, 0, data, s.m.GetGenesisToken(), s.m.GetGenesisToken())
		t, err := types.SignTx(t, types.MakeSigner(3), k)
		if err != nil {
			panic(err)
		}
		return transEvmTxToTx(t)
	}
	return createTransferTransaction(s.m, key, from, to, big.NewInt(value), &gas, &price, &nonce, data, nil, nil)
}

// Whatever is waiting in the pool and among the deposits, the block a shard
// assembles is one it accepts, its miner gets exactly the reward it states, and
// what the block did not take does not keep the next one from being assembled.
//
//verif:harness V19 time=200 ttime=900 paths=50000 steps=400000000 reach=all,some,none,big
//verif:bounds three waiting transactions of two accounts (two of one, three prices), each of 8 kinds (small or large value, in-shard or cross-shard, data, creation with enough or too little gas, near the gas limit); one deposit of any value 2^61..2^62-1; miner is a third account or one of the senders; two blocks
func VerifH_V19_Mine() {
	verifsym.Feeds()
	dep := verifPlainDeposit(35760)
	dep.Value.Value = verifsym.Big("deposit", big.NewInt(1<<61), big.NewInt(1<<62-1))
	s := verifNewShardWith(func(c *config.QuarkChainConfig) { c.SkipMinorDifficultyCheck = false })
	m := s.m
	keyB := common.FromHex("189c2857d4598e37fb9647507e47a309d6133539bf21a8b9cb6df88fd5232031")
	kb, _ := crypto.ToECDSA(keyB)
	fromB := account.Address{Recipient: crypto.PubkeyToAddress(kb.PublicKey), FullShardKey: 0}
	zero := uint64(0)
	s.addRoot(0, 0, big.NewInt(1<<20), 1)
	keep := big.NewInt(100000000 - 50000000)
	s.addMinor(0, 1, 1, createTransferTransaction(m, s.key, s.from, fromB, keep, nil, nil, &zero, nil, nil, nil))
	s.addDeposit(1, dep)
	s.settle()
	c := verifsym.Choose("price", 3)
	price := []uint64{0, 2, 1}[c]
	txs := []*types.Transaction{
		s.verifPoolTx(verifsym.Choose("kind1", 8), s.key, s.from, 1, 1),
		s.verifPoolTx(verifsym.Choose("kind2", 8), s.key, s.from, 2, 1),
		s.verifPoolTx(verifsym.Choose("kind3", 8), keyB, fromB, 0, price),
	}
	for _, t := range txs {
		if err := m.AddTx(t); err != nil {
			verifsym.Assert(false, "honest transaction refused: "+err.Error())
		}
	}
	coinbase := account.Address{Recipient: verifAddr(5), FullShardKey: 0}
	if c == 2 {
		coinbase = fromB
	}
	left := 3
	for i := 0; i < 2; i++ {
		ts := m.CurrentBlock().Time() + 10
		before := m.currentEvmState.GetBalance(coinbase.Recipient, 35760)
		b, err := m.CreateBlockToMine(&ts, &coinbase, nil, nil, nil)
		if err != nil {
			verifsym.Assert(false, "no block to mine: "+err.Error())
			return
		}
		if _, err = m.InsertChain([]types.IBlock{b}, false); err != nil {
			verifsym.Assert(false, "the block the shard made was refused: "+err.Error())
			return
		}
		verifsym.Assert(m.CurrentBlock().Hash() == b.Hash(), "the block the shard made is its head")
		if coinbase.Recipient != fromB.Recipient {
			got := verifSub(m.currentEvmState.GetBalance(coinbase.Recipient, 35760), before)
			verifsym.Assert(verifEq(got, b.CoinbaseAmount().GetTokenBalance(35760)), "the miner got the stated reward")
		}
		if i == 0 {
			verifsym.Assert(verifEq(m.currentEvmState.GetBalance(verifAddr(2), 35760), dep.Value.Value), "the deposit arrived")
		}
		left -= len(b.Transactions())
		if b.GasUsed().Cmp(big.NewInt(200000)) > 0 {
			verifsym.Reach("big")
		}
		s.settle()
	}
	switch left {
	case 0:
		verifsym.Reach("all")
	case 3:
		verifsym.Reach("none")
	default:
		verifsym.Reach("some")
	}
}

// The same with transactions in a token that is not the shard's own, some of
// which become void by the ones before them.
//
//verif:harness V19 time=120 ttime=600 paths=50000 steps=400000000 reach=all,some
//verif:bounds an account with 33000..65535 of a second token (any value, received in the first block) and three waiting transactions moving nearly all, half, a little or none of either token; two blocks
func VerifH_V19_Tokens() {
	verifsym.Feeds()
	s := verifNewShard()
	m := s.m
	x := qkcCommon.TokenIDEncode("QI")
	s.addRoot(0, 0, big.NewInt(1<<20), 1)
	s.addMinor(0, 1, 1)
	dep := verifPlainDeposit(35760)
	dep.TransferTokenID, dep.To = x, s.from
	dep.Value.Value = verifsym.Big("balance", big.NewInt(33000), big.NewInt(65535))
	s.addDeposit(1, dep)
	s.settle()
	coinbase := account.Address{Recipient: verifAddr(5), FullShardKey: 0}
	s.verifMine(coinbase)
	verifsym.Assert(verifEq(m.currentEvmState.GetBalance(s.from.Recipient, x), dep.Value.Value), "the deposit arrived")
	left := 0
	for i := uint64(0); i < 3; i++ {
		tok, v := x, []int64{60000, 30000, 10, 0}[verifsym.Choose("value", 4)]
		if verifsym.Choose("own", 2) == 1 {
			tok, v = m.GetGenesisToken(), v*1500
		}
		n := i
		t := createTransferTransaction(m, s.key, s.from, account.Address{Recipient: verifAddr(9), FullShardKey: 0}, big.NewInt(v), nil, nil, &n, nil, nil, &tok)
		if err := m.AddTx(t); err == nil {
			left++
		} else {
			verifsym.Assert(v == 60000 && tok == x, "a transaction the account can pay was refused: "+err.Error())
		}
	}
	for i := 0; i < 2; i++ {
		left -= len(s.verifMine(coinbase).Transactions())
	}
	if left == 0 {
		verifsym.Reach("all")
	} else {
		verifsym.Reach("some")
	}
}

func (s *verifShard) verifMine(coinbase account.Address) *types.MinorBlock {
	m := s.m
	ts := m.CurrentBlock().Time() + 10
	b, err := m.CreateBlockToMine(&ts, &coinbase, nil, nil, nil)
	if err != nil {
		verifsym.Assert(false, "no block to mine: "+err.Error())
	}
	if _, err = m.InsertChain([]types.IBlock{b}, false); err != nil {
		verifsym.Assert(false, "the block the shard made was refused: "+err.Error())
	}
	verifsym.Assert(m.CurrentBlock().Hash() == b.Hash(), "the block the shard made is its head")
	s.settle()
	return b
}
