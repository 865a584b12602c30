package types

import (
	"math/big"

	"github.com/QuarkChain/goquarkchain/verifsym"
)

// A transaction's hash pins down every field including the signature, so equal ids mean equal transactions.
//verif:harness V09 time=120 qtime=20 reach=eq
//verif:bounds two transactions with all fields symbolic, differing in any two fields of a chosen group and/or the signature (one or two encoding lengths per numeric field)
func VerifH_V09_TxHash() {
	w := verifsym.Choose("width", 2)
	a, b := verifSymPair(w)
	for i, x := range []*EvmTransaction{a, b} {
		if !verifsym.Bool("sig") {
			break
		}
		p := []string{"A", "B"}[i]
		x.data.R = verifsym.Big(p+"r", big.NewInt(1<<20), big.NewInt(1<<23))
		x.data.S = verifsym.Big(p+"s", big.NewInt(1<<20), big.NewInt(1<<23))
		x.data.V = verifsym.Big(p+"v", big.NewInt(1), big.NewInt(127))
		x.data.Version = uint32(verifsym.U64r(p+"version", 1, 2))
	}
	ta, tb := &Transaction{TxType: EvmTx, EvmTx: a}, &Transaction{TxType: EvmTx, EvmTx: b}
	if ta.Hash() == tb.Hash() {
		verifsym.Reach("eq")
		da, db := &a.data, &b.data
		verifsym.Assert(verifSameCore(da, db), "two different transactions share an id")
		verifsym.Assert(verifsym.And(*da.FromFullShardKey == *db.FromFullShardKey, *da.ToFullShardKey == *db.ToFullShardKey), "shard keys are not covered by the id")
		verifsym.Assert(verifsym.And(da.GasTokenID == db.GasTokenID, da.TransferTokenID == db.TransferTokenID), "token ids are not covered by the id")
		verifsym.Assert(verifsym.And(da.Version == db.Version, verifsym.And(da.V.Cmp(db.V) == 0, verifsym.And(da.R.Cmp(db.R) == 0, da.S.Cmp(db.S) == 0))), "signature is not covered by the id")
	}
}

