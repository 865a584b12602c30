package config

import (
	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/verifsym"
)

// A configured network maps every key of a configured chain to one configured
// shard, refuses keys of other chains, and IsSameFullShard agrees with it.
//
//verif:harness V11 time=60 reach=known,unknown,same,apart
//verif:bounds 1..3 chains of 1, 2, 4 or 8 shards; all 32-bit keys
func VerifH_V11_Config() {
	q := NewQuarkChainConfig()
	chains := uint32(1 + verifsym.Choose("chains", 3))
	size := uint32(1) << uint(verifsym.Choose("size", 4))
	q.Update(chains, size, 10, 3)
	key := verifsym.BV32("key")
	id, err := q.GetFullShardIdByFullShardKey(key)
	verifsym.Assert(verifsym.Iff(err == nil, key>>16 < chains), "known iff the chain is configured")
	verifsym.Assert(len(q.GetGenesisShardIds()) == int(chains*size), "number of shards")
	if err != nil {
		verifsym.Assert(!q.IsSameFullShard(key, key), "unknown chain is nobody's shard")
		verifsym.Reach("unknown")
		return
	}
	b := account.NewBranch(id)
	verifsym.Assert(b.IsInBranch(key), "key is not in its shard")
	found := false
	for _, s := range q.GetGenesisShardIds() {
		found = verifsym.Or(found, s == id)
		c := account.NewBranch(s)
		verifsym.Assert(c.GetShardSize() == size, "size of a configured shard")
		sc := q.GetShardConfigByFullShardID(s)
		verifsym.Assert(sc != nil && sc.GetFullShardId() == s && sc.ChainID == c.GetChainID() && sc.ShardID == c.GetShardID(), "shard config")
	}
	verifsym.Assert(found, "the shard of a key is not configured")
	a := account.Address{FullShardKey: key}
	id2, err := a.GetFullShardID(size)
	verifsym.Assert(err == nil && id2 == id, "address and config disagree about the shard")
	verifsym.Reach("known")
	other := verifsym.BV32("other")
	same := q.IsSameFullShard(key, other)
	verifsym.Assert(verifsym.Iff(same, verifsym.And(other>>16 == key>>16, other&(size-1) == key&(size-1))), "same shard iff same chain and same residue")
	if same {
		verifsym.Reach("same")
	} else {
		verifsym.Reach("apart")
	}
}

// A shard counts as initialised before a root height exactly if its genesis
// root height is smaller.
//
//verif:harness V11 time=30 reach=in,out
//verif:bounds 2 chains of 2 shards, all genesis root heights, all root heights
func VerifH_V11_Initialized() {
	q := NewQuarkChainConfig()
	q.Update(2, 2, 10, 3)
	ids := []uint32{2, 3, 1<<16 | 2, 1<<16 | 3}
	g := make([]uint32, 4)
	for i, id := range ids {
		g[i] = verifsym.U32("g")
		q.GetShardConfigByFullShardID(id).Genesis.RootHeight = g[i]
		verifsym.Assert(q.GetGenesisRootHeight(id) == g[i], "genesis root height")
	}
	h := verifsym.U32("h")
	got := q.GetInitializedShardIdsBeforeRootHeight(h)
	for i, id := range ids {
		n := 0
		for _, x := range got {
			if x == id {
				n++
			}
		}
		if g[i] < h {
			verifsym.Assert(n == 1, "initialised shard not listed once")
			verifsym.Reach("in")
		} else {
			verifsym.Assert(n == 0, "shard listed before its genesis")
			verifsym.Reach("out")
		}
	}
}
