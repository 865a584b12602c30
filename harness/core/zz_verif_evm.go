package core

//verif:common

import (
	"math/big"

	"github.com/QuarkChain/goquarkchain/core/state"
	"github.com/QuarkChain/goquarkchain/core/vm"
	qkcParams "github.com/QuarkChain/goquarkchain/params"
	"github.com/ethereum/go-ethereum/common"
)

var (
	verifW256 = new(big.Int).Lsh(big.NewInt(1), 256)
	verifW255 = new(big.Int).Lsh(big.NewInt(1), 255)
)

// verifEVM: the machine as a shard sets it up, on state st
func verifEVM(st *state.StateDB) *vm.EVM {
	ctx := vm.Context{
		CanTransfer: CanTransfer, Transfer: Transfer, TransferFailureByPoswBalanceCheck: TransferFailureByPoswBalanceCheck,
		GetHash: func(n uint64) common.Hash { return common.Hash{0xb1, byte(n)} },
		Origin:  verifAddr(1), Coinbase: verifAddr(5), BlockNumber: big.NewInt(7), Time: big.NewInt(99), Difficulty: big.NewInt(1234), GasLimit: 12000000,
		GasPrice: big.NewInt(3), GasPriceInGasToken: big.NewInt(3), GasTokenID: 35760, TransferTokenID: 35760,
	}
	return vm.NewEVM(ctx, st, &qkcParams.DefaultConstantinople, vm.Config{})
}

// verifExec: what code answers to input, called by account 1 with so much gas
func verifExec(st *state.StateDB, code, input []byte, gas uint64) ([]byte, uint64, error) {
	st.SetCode(verifAddr(0x20), code)
	st.SetTimeStamp(99)
	return verifEVM(st).Call(vm.AccountRef(verifAddr(1)), verifAddr(0x20), input, gas, new(big.Int))
}

var verifRet32 = []byte{0x60, 0, 0x52, 0x60, 32, 0x60, 0, 0xf3}

func verifSigned(x *big.Int) *big.Int {
	if x.Cmp(verifW255) >= 0 {
		return new(big.Int).Sub(x, verifW256)
	}
	return x
}

func verifBit(b bool) *big.Int {
	if b {
		return big.NewInt(1)
	}
	return new(big.Int)
}

func verifPush(n uint64) []byte { return []byte{0x61, byte(n >> 8), byte(n)} }

func verifPushW(x *big.Int) []byte {
	r := make([]byte, 33)
	r[0] = 0x7f
	b := x.Bytes()
	copy(r[33-len(b):], b)
	return r
}

