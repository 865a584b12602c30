package account

import (
	"encoding/json"

	"github.com/QuarkChain/goquarkchain/verifsym"
)

func verifSize(n string) uint32 { return 1 << uint(verifsym.Choose(n, 16)) }

// Every address key belongs to exactly one shard of its chain: the shard that
// GetFullShardID names contains the key, and no other shard of that chain, nor
// any shard of another chain, does.
//
//verif:harness V11 time=60 reach=same,other
//verif:bounds all 32-bit shard keys; all shard sizes 2^0..2^15; all chain ids and shard ids
func VerifH_V11_OneShard() {
	size := verifSize("size")
	key := verifsym.BV32("key")
	a := Address{FullShardKey: key}
	id, err := a.GetFullShardID(size)
	verifsym.Assert(err == nil, "no shard for a key")
	verifsym.Observe("id", id)
	b := NewBranch(id)
	verifsym.Assert(b.GetShardSize() == size, "shard size lost")
	verifsym.Assert(b.GetChainID() == key>>16, "chain id is the upper half of the key")
	verifsym.Assert(a.GetChainID() == key>>16, "chain id of the address")
	verifsym.Assert(b.GetShardID() == key&(size-1), "shard id is the key modulo the shard size")
	verifsym.Assert(b.GetFullShardID() == id, "full shard id")
	verifsym.Assert(b.IsInBranch(key), "key is not in its own shard")
	chain, shard := verifsym.BV32("chain"), verifsym.BV32("shard")
	verifsym.Assume(chain < 1<<16 && shard < size)
	c, err := CreatBranch(chain, size, shard)
	verifsym.Assert(err == nil, "branch refused")
	verifsym.Assert(c.GetChainID() == chain && c.GetShardID() == shard && c.GetShardSize() == size, "branch parts")
	if c.Value == b.Value {
		verifsym.Reach("same")
	} else {
		verifsym.Reach("other")
		verifsym.Assert(!c.IsInBranch(key), "key is in two shards")
	}
}

// A size that is not a power of two is refused.
//
//verif:harness V11 time=30 reach=refused
//verif:bounds all 32-bit sizes with at least two bits set
func VerifH_V11_BadSize() {
	size := verifsym.BV32("size")
	i, j := verifsym.Choose("i", 32), verifsym.Choose("j", 32)
	verifsym.Assume(i < j)
	verifsym.Assume(size&(1<<uint(i)) != 0 && size&(1<<uint(j)) != 0)
	a := Address{FullShardKey: verifsym.BV32("key")}
	_, err := a.GetFullShardID(size)
	verifsym.Assert(err != nil, "shard size that is not a power of two accepted")
	_, err = CreatBranch(1, size, 0)
	verifsym.Assert(err != nil, "branch of a size that is not a power of two accepted")
	verifsym.Reach("refused")
}

// Moving an address into a shard puts it there, keeps the account and the
// part of the key that does not select the shard, and does nothing if it is
// there already.
//
//verif:harness V11 time=60 reach=stay,move
//verif:bounds all keys, shard sizes 2^0..2^15, chain ids and shard ids
func VerifH_V11_Move() {
	size := verifSize("size")
	key, chain, shard := verifsym.BV32("key"), verifsym.BV32("chain"), verifsym.BV32("shard")
	verifsym.Assume(chain < 1<<16 && shard < size)
	b, err := CreatBranch(chain, size, shard)
	verifsym.Assert(err == nil, "branch refused")
	a := Address{FullShardKey: key, Recipient: Recipient{1, 2, 3}}
	m := a.AddressInBranch(b)
	verifsym.Observe("key", m.FullShardKey)
	verifsym.Assert(m.Recipient == a.Recipient, "account changed")
	verifsym.Assert(b.IsInBranch(m.FullShardKey), "moved address is not in the shard")
	verifsym.Assert((m.FullShardKey&0xffff)&^(size-1) == (key&0xffff)&^(size-1), "unrelated key bits changed")
	if b.IsInBranch(key) {
		verifsym.Assert(m.FullShardKey == key, "address already in the shard moved")
		verifsym.Reach("stay")
	} else {
		verifsym.Reach("move")
	}
	n := a.AddressInShard(m.FullShardKey)
	verifsym.Assert(n == m, "AddressInShard")
}

// Neighbourhood is symmetric, total for up to 32 shards, and beyond that
// links exactly the shards that differ in one coordinate by a power of two.
//
//verif:harness V11 time=60 reach=few,yes,no
//verif:bounds all pairs of distinct shards of equal per-chain size 2^0..2^15, all chain ids, all total sizes
func VerifH_V11_Neighbor() {
	size := verifSize("size")
	c1, s1, c2, s2 := verifsym.BV32("c1"), verifsym.BV32("s1"), verifsym.BV32("c2"), verifsym.BV32("s2")
	verifsym.Assume(c1 < 1<<16 && c2 < 1<<16 && s1 < size && s2 < size)
	verifsym.Assume(c1 != c2 || s1 != s2)
	b1, _ := CreatBranch(c1, size, s1)
	b2, _ := CreatBranch(c2, size, s2)
	total := verifsym.BV32("total")
	r := IsNeighbor(b1, b2, total)
	verifsym.Assert(r == IsNeighbor(b2, b1, total), "neighbourhood is not symmetric")
	if total <= 32 {
		verifsym.Assert(r, "few shards: all are neighbours")
		verifsym.Reach("few")
		return
	}
	want := false
	for k := uint(0); k < 16; k++ {
		d := uint32(1) << k
		chain := verifsym.And(s1 == s2, verifsym.Or(c1 == c2+d, c2 == c1+d))
		shard := verifsym.And(c1 == c2, verifsym.Or(s1 == s2+d, s2 == s1+d))
		want = verifsym.Or(want, verifsym.Or(chain, shard))
	}
	verifsym.Assert(verifsym.Iff(r, want), "neighbour iff one coordinate differs by a power of two")
	if r {
		verifsym.Reach("yes")
	} else {
		verifsym.Reach("no")
	}
}

// Textual and binary forms of an address denote exactly it.
//
//verif:harness V11 time=60 reach=ok
//verif:bounds all 24-byte addresses; byte strings of length 0..26
func VerifH_V11_Forms() {
	raw := verifsym.WideBytes("raw", 20)
	var a Address
	copy(a.Recipient[:], raw)
	a.FullShardKey = verifsym.U32("key")
	b, err := CreatAddressFromBytes(a.ToBytes())
	verifsym.Assert(err == nil && b == a, "bytes round trip")
	n := verifsym.Choose("n", 27)
	_, err = CreatAddressFromBytes(make([]byte, n))
	verifsym.Assert((err == nil) == (n == 24), "address of the wrong length")
	verifsym.Reach("ok")
}

//verif:harness V11 time=60 reach=ok
//verif:bounds every byte of the address in turn takes all its values
func VerifH_V11_Text() {
	var a Address
	for i := range a.Recipient {
		a.Recipient[i] = byte(i * 13)
	}
	a.FullShardKey = 0x01ab0900
	if i := verifsym.Choose("byte", 24); i < 20 {
		a.Recipient[i] = verifsym.BV8("b")
	} else {
		a.FullShardKey ^= uint32(verifsym.BV8("b")) << uint(8*(i-20))
	}
	j, err := a.MarshalJSON()
	verifsym.Assert(err == nil && len(j) == 52, "JSON form")
	var b Address
	verifsym.Assert(b.UnmarshalJSON(j) == nil && b == a, "JSON round trip")
	t, err := UnprefixedAddress(a).MarshalText()
	verifsym.Assert(err == nil, "text form")
	var c UnprefixedAddress
	verifsym.Assert(c.UnmarshalText(t) == nil && c.Address() == a, "text round trip")
	verifsym.Reach("ok")
}

var _ = json.Marshal
