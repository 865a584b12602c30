package types

import (
	"math/big"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/verifsym"
)

// A transaction is cross-shard exactly if its two shards differ, and the shards
// it names are those of its two keys.
//
//verif:harness V11 time=60 reach=in,cross
//verif:bounds all pairs of keys, source and destination shard sizes 2^0..2^4
func VerifH_V11_TxRouting() {
	n := 5
	fs := uint32(1) << uint(verifsym.Choose("fs", n))
	ts := uint32(1) << uint(verifsym.Choose("ts", n))
	fk, tk := verifsym.BV32("fk"), verifsym.BV32("tk")
	// one chain has one shard size
	verifsym.Assume(fs == ts || fk>>16 != tk>>16)
	tx := NewEvmTransaction(0, account.Recipient{1}, big.NewInt(0), 0, big.NewInt(0), fk, tk, 3, 0, nil, 1, 1)
	verifsym.Assert(tx.SetFromShardSize(fs) == nil && tx.SetToShardSize(ts) == nil, "shard size refused")
	verifsym.Assert(tx.FromFullShardKey() == fk && tx.ToFullShardKey() == tk, "keys")
	from, to := account.NewBranch(tx.FromFullShardId()), account.NewBranch(tx.ToFullShardId())
	verifsym.Assert(from.IsInBranch(fk), "source shard")
	verifsym.Assert(to.IsInBranch(tk), "destination shard")
	verifsym.Assert(from.GetShardSize() == fs && to.GetShardSize() == ts, "sizes")
	verifsym.Assert(verifsym.Iff(tx.IsCrossShard(), from.Value != to.Value), "cross-shard iff the shards differ")
	if tx.IsCrossShard() {
		verifsym.Reach("cross")
	} else {
		verifsym.Reach("in")
	}
	bad := verifsym.BV32("bad")
	if tx.SetFromShardSize(bad) == nil {
		verifsym.Assert(bad != 0 && bad&(bad-1) == 0, "shard size that is not a power of two accepted")
	}
}
