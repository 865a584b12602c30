package core

//verif:common

import (
	"math/big"
	"time"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/consensus"
	"github.com/QuarkChain/goquarkchain/core/state"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/core/vm"
	qkcParams "github.com/QuarkChain/goquarkchain/params"
	"github.com/QuarkChain/goquarkchain/serialize"
	"github.com/QuarkChain/goquarkchain/verifsym"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/ethdb"
	"github.com/ethereum/go-ethereum/params"
)

var verifU256 = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))
var verifU128 = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 128), big.NewInt(1))
var verifU64 = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 64), big.NewInt(1))
var verifZero = new(big.Int)

func verifAddr(b byte) common.Address {
	var a common.Address
	a[0] = b
	a[19] = b
	return a
}

func verifState() *state.StateDB {
	st, err := state.New(common.Hash{}, state.NewDatabase(ethdb.NewMemDatabase()))
	if err != nil {
		panic(err)
	}
	st.SetQuarkChainConfig(config.NewQuarkChainConfig())
	return st
}

func verifBig(n string, hi *big.Int) *big.Int { return verifsym.Big(n, verifZero, hi) }

func verifAdd(xs ...*big.Int) *big.Int {
	r := new(big.Int)
	for _, x := range xs {
		r.Add(r, x)
	}
	return r
}
func verifSub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }
func verifMul(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
func verifB(x uint64) *big.Int        { return new(big.Int).SetUint64(x) }
func verifEq(a, b *big.Int) bool      { return a.Cmp(b) == 0 }

// verifRate: floor(x * LocalFeeRate)
func verifRate(st *state.StateDB, x *big.Int) *big.Int {
	r := new(big.Rat).Set(st.GetQuarkChainConfig().LocalFeeRate)
	return new(big.Int).Div(verifMul(x, r.Num()), r.Denom())
}

type verifChain struct{ cfg *config.QuarkChainConfig }

func (c *verifChain) Engine() consensus.Engine           { return nil }
func (c *verifChain) Config() *config.QuarkChainConfig   { return c.cfg }
func (c *verifChain) GetHeader(common.Hash) types.IHeader { return nil }

func verifHeader(coinbase common.Address, gasLimit uint64) *types.MinorBlockHeader {
	return &types.MinorBlockHeader{
		Number:         7,
		Coinbase:       account.Address{Recipient: coinbase},
		CoinbaseAmount: types.NewEmptyTokenBalances(),
		Time:           1600000000,
		Difficulty:     big.NewInt(1000),
		GasLimit:       &serialize.Uint256{Value: verifB(gasLimit)},
	}
}

func verifTx(from common.Address, to *common.Address, nonce uint64, value *big.Int, gas uint64, price *big.Int, fromKey, toKey uint32, data []byte, gasTok, trTok uint64) *types.Transaction {
	var e *types.EvmTransaction
	if to == nil {
		e = types.NewEvmContractCreation(nonce, value, gas, price, fromKey, toKey, 3, 0, data, gasTok, trTok)
	} else {
		e = types.NewEvmTransaction(nonce, *to, value, gas, price, fromKey, toKey, 3, 0, data, gasTok, trTok)
	}
	e.SetFromShardSize(2)
	e.SetToShardSize(2)
	e.SetSender(from)
	return &types.Transaction{TxType: types.EvmTx, EvmTx: e}
}

func verifApply(st *state.StateDB, gp *GasPool, coinbase common.Address, tx *types.Transaction) (*types.Receipt, uint64, error) {
	return verifApplyH(st, gp, verifHeader(coinbase, 1<<40), tx)
}

func verifApplyH(st *state.StateDB, gp *GasPool, h *types.MinorBlockHeader, tx *types.Transaction) (*types.Receipt, uint64, error) {
	var used uint64
	_, r, gas, err := ApplyTransaction(&qkcParams.DefaultConstantinople, &verifChain{st.GetQuarkChainConfig()}, gp, st, h, tx, &used, vm.Config{})
	return r, gas, err
}

var _ = account.Address{}

func verifSum(st *state.StateDB, tok uint64, as ...common.Address) *big.Int {
	r := new(big.Int)
	for _, a := range as {
		b := st.GetBalance(a, tok)
		verifsym.Assert(b.Sign() >= 0, "a balance became negative")
		r.Add(r, b)
	}
	return r
}

// Contracts used as recipients: what they do with value must never create or
// destroy any of it (self-destruct to self excepted: it burns by definition).
var verifCodes = [][]byte{
	{0x00},                               // STOP
	{0x60, 0x00, 0x60, 0x00, 0xfd},       // REVERT
	{0xfe},                               // INVALID
	append(append([]byte{0x73}, verifAddrB(3)...), 0xff), // PUSH20 c SELFDESTRUCT
	// CALL(gas, c, difficulty(), 0,0,0,0); STOP
	append(append([]byte{0x60, 0, 0x60, 0, 0x60, 0, 0x60, 0, 0x44, 0x73}, verifAddrB(3)...), 0x61, 0xff, 0xff, 0xf1, 0x00),
	// CREATE(difficulty(), 0, 0); STOP
	{0x60, 0, 0x60, 0, 0x44, 0xf0, 0x00},
	// CALL then REVERT
	append(append([]byte{0x60, 0, 0x60, 0, 0x60, 0, 0x60, 0, 0x44, 0x73}, verifAddrB(3)...), 0x61, 0xff, 0xff, 0xf1, 0x60, 0, 0x60, 0, 0xfd),
	// CALLCODE(gas, c, difficulty()..)
	append(append([]byte{0x60, 0, 0x60, 0, 0x60, 0, 0x60, 0, 0x44, 0x73}, verifAddrB(3)...), 0x61, 0xff, 0xff, 0xf2, 0x00),
}

func verifAddrB(b byte) []byte { a := verifAddr(b); return a[:] }

func verifKey0() *uint32 { k := uint32(0); return &k }

func verifDepositB(a, b common.Address, value *big.Int, price *big.Int, gas uint64, tok, gasTok uint64, data []byte, create bool) *types.CrossShardTransactionDeposit {
	return &types.CrossShardTransactionDeposit{
		CrossShardTransactionDepositV0: types.CrossShardTransactionDepositV0{
			TxHash: common.Hash{5}, From: account.Address{Recipient: a, FullShardKey: 1}, To: account.Address{Recipient: b, FullShardKey: 0},
			Value: &serialize.Uint256{Value: value}, GasPrice: &serialize.Uint256{Value: price}, GasTokenID: gasTok, TransferTokenID: tok,
			GasRemained: &serialize.Uint256{Value: verifB(gas)}, MessageData: data, CreateContract: create,
		}, RefundRate: 100,
	}
}


// verifShardState is createDefaultShardState without the cache of clean trie nodes.
func verifShardState(env *fakeEnv) *MinorBlockChain {
	root := NewGenesis(env.clusterConfig.Quarkchain).MustCommitRootBlock(env.db)
	id := env.clusterConfig.Quarkchain.Chains[0].ShardSize
	NewGenesis(env.clusterConfig.Quarkchain).MustCommitMinorBlock(env.db, root, id)
	m, err := NewMinorBlockChain(env.db, &CacheConfig{TrieDirtyLimit: 32, TrieTimeLimit: 5 * time.Minute, Disabled: true}, params.TestChainConfig, env.clusterConfig,
		new(consensus.FakeEngine), vm.Config{}, nil, id)
	if err == nil {
		_, err = m.InitGenesisState(root)
	}
	if err != nil {
		panic(err)
	}
	return m
}

func verifCat(xs ...[]byte) []byte {
	var r []byte
	for _, x := range xs {
		r = append(r, x...)
	}
	return r
}
