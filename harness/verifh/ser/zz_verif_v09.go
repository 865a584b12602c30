package ser

import (
	"math/big"
	"reflect"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/verifsym"
	"github.com/ethereum/go-ethereum/common"
)

type hashed interface {
	Hash() common.Hash
}
type sealed interface {
	Hash() common.Hash
	SealHash() common.Hash
}

// same shape, one field chosen by the solver differs freely: equal hashes mean equal fields.
func commits(x interface{}, m mode, seal bool, exclude map[string]bool) {
	t := reflect.TypeOf(x)
	a := reflect.New(t)
	mode{opt: true, zero: true}.fill(a.Elem(), false, "")
	b := reflect.New(t)
	mode{opt: true, zero: true}.fill(b.Elem(), false, "")
	i := verifsym.Choose("field", t.NumField())
	name := t.Field(i).Name
	if c, ok := a.Elem().Field(i).Interface().(*types.XShardTxCursorInfo); ok {
		d := b.Elem().Field(i).Interface().(*types.XShardTxCursorInfo)
		k := verifsym.Choose("cursor", 3)
		u, v := []*uint64{&c.RootBlockHeight, &c.MinorBlockIndex, &c.XShardDepositIndex}[k], []*uint64{&d.RootBlockHeight, &d.MinorBlockIndex, &d.XShardDepositIndex}[k]
		*u, *v = verifsym.U64("a"), verifsym.U64("b")
	} else {
		m.fill(a.Elem().Field(i), false, "a")
		m.fill(b.Elem().Field(i), false, "b")
	}
	var ha, hb common.Hash
	if seal {
		ha, hb = a.Interface().(sealed).SealHash(), b.Interface().(sealed).SealHash()
		if exclude[name] {
			verifsym.Assert(ha == hb, "the seal hash depends on a field the miner fills in: "+name)
			verifsym.Reach("excluded")
			return
		}
	} else {
		ha, hb = a.Interface().(hashed).Hash(), b.Interface().(hashed).Hash()
	}
	if ha == hb {
		verifsym.Reach("eq")
		same(a.Elem().Field(i), b.Elem().Field(i), t.Name()+" hash does not cover "+name)
	}
}

//verif:harness V09 time=150 qtime=20 reach=eq,excluded
//verif:bounds minor header, root header and meta; identity hash and seal hash; any one field differing, with lists of 1..2 and big numbers of 1 or 9 bytes
func VerifH_V09_HeaderHash() {
	m := []mode{{n: 1, blen: 1, opt: true}, {n: 2, blen: 9, opt: true}}[verifsym.Choose("shape", 2)]
	switch verifsym.Choose("kind", 5) {
	case 0:
		commits(types.MinorBlockHeader{}, m, false, nil)
	case 1:
		commits(types.MinorBlockHeader{}, m, true, map[string]bool{"Nonce": true, "MixDigest": true})
	case 2:
		commits(types.RootBlockHeader{}, m, false, nil)
	case 3:
		commits(types.RootBlockHeader{}, m, true, map[string]bool{"Nonce": true, "MixDigest": true, "Signature": true})
	case 4:
		commits(types.MinorBlockMeta{}, m, false, nil)
	}
}

func plainHeader(nonce uint64) *types.MinorBlockHeader {
	h := &types.MinorBlockHeader{}
	mode{opt: true, zero: true}.fill(reflect.ValueOf(h).Elem(), false, "")
	h.Nonce = nonce
	return h
}

// The root over a list pins down its length, order and contents.
//verif:harness V09 time=150 qtime=20 reach=eq
//verif:bounds lists of 0..5 (quick) or 0..8 (thorough) headers, each with a symbolic field, against any other such list
func VerifH_V09_MerkleRoot() {
	max := verifsym.Bound("max", 6, 9)
	n, k := verifsym.Choose("n", max), verifsym.Choose("m", max)
	var a, b types.MinorBlockHeaders
	for i := 0; i < n; i++ {
		a = append(a, plainHeader(verifsym.U64("a")))
	}
	for i := 0; i < k; i++ {
		b = append(b, plainHeader(verifsym.U64("b")))
	}
	if types.CalculateMerkleRoot(a) == types.CalculateMerkleRoot(b) {
		verifsym.Reach("eq")
		verifsym.Assert(n == k, "lists of different length share a root")
		for i := range a {
			verifsym.Assert(a[i].Nonce == b[i].Nonce, "lists with different elements share a root")
		}
	}
}

//verif:harness V09 time=100 reach=minor,root
//verif:bounds one minor and one root block; finalize with arbitrary results, seal with arbitrary nonce and digest
func VerifH_V09_BlockHash() {
	m := mode{n: 1, blen: 4, opt: true}
	if verifsym.Choose("kind", 2) == 0 {
		verifsym.Reach("minor")
		h, mt := &types.MinorBlockHeader{}, &types.MinorBlockMeta{}
		mode{opt: true, zero: true}.fill(reflect.ValueOf(h).Elem(), false, "")
		mode{opt: true, zero: true}.fill(reflect.ValueOf(mt).Elem(), false, "")
		b := types.NewMinorBlockWithHeader(h, mt)
		b.AddTx(types.VerifPlainTx())
		before := b.Hash()
		var root common.Hash
		copy(root[:], verifsym.WideBytes("root", 32))
		c := &types.XShardTxCursorInfo{RootBlockHeight: verifsym.U64("c"), MinorBlockIndex: verifsym.U64("d"), XShardDepositIndex: verifsym.U64("e")}
		gu, xg := m.big("gu"), m.big("xg")
		b.Finalize(nil, root, gu, xg, m.tok("cb"), c)
		verifsym.Assert(b.Hash() == b.Header().Hash(), "a finalized block reports a hash that is not its header's")
		verifsym.Assert(b.Header().MetaHash == b.Meta().Hash(), "a finalized header does not commit to its metadata")
		verifsym.Assert(b.Meta().TxHash == types.CalculateMerkleRoot(b.Transactions()), "finalized metadata does not commit to the transactions")
		mm := b.Meta()
		verifsym.Assert(mm.Root == root && mm.GasUsed.Value.Cmp(gu) == 0 && mm.CrossShardGasUsed.Value.Cmp(xg) == 0 && *mm.XShardTxCursorInfo == *c, "finalize loses a result")
		_ = before
		x := b.Header()
		x.Nonce++
		x.Difficulty.Add(x.Difficulty, big.NewInt(1))
		x.GasLimit.Value.Add(x.GasLimit.Value, big.NewInt(1))
		y := b.Meta()
		y.GasUsed.Value.Add(y.GasUsed.Value, big.NewInt(1))
		verifsym.Assert(b.Hash() == b.Header().Hash() && b.Header().MetaHash == b.Meta().Hash(), "changing a returned header changes the block")
		nonce := verifsym.U64("nonce")
		var mix common.Hash
		copy(mix[:], verifsym.WideBytes("mix", 32))
		s := b.WithMingResult(nonce, mix, nil).(*types.MinorBlock)
		verifsym.Assert(s.Hash() == s.Header().Hash() && s.Header().SealHash() == b.Header().SealHash() && s.Nonce() == nonce && s.Header().MixDigest == mix, "sealing changes more than the seal")
		verifsym.Assert(b.Hash() == b.Header().Hash(), "sealing a copy changed the original")
		return
	}
	verifsym.Reach("root")
	h := &types.RootBlockHeader{}
	mode{opt: true, zero: true}.fill(reflect.ValueOf(h).Elem(), false, "")
	b := types.NewRootBlockWithHeader(h)
	for i := 0; i < verifsym.Choose("headers", 3); i++ {
		b.AddMinorBlockHeader(plainHeader(verifsym.U64("n")))
	}
	_ = b.Hash()
	cb := account.Address{FullShardKey: verifsym.U32("key")}
	b.Finalize(m.tok("cb"), &cb, common.Hash{})
	verifsym.Assert(b.Hash() == b.Header().Hash(), "a finalized root block reports a hash that is not its header's")
	verifsym.Assert(b.Header().MinorHeaderHash == types.CalculateMerkleRoot(b.MinorBlockHeaders()), "a finalized root header does not commit to its minor headers")
	x := b.Header()
	x.Nonce++
	x.Difficulty.Add(x.Difficulty, big.NewInt(1))
	x.ToTalDifficulty.Add(x.ToTalDifficulty, big.NewInt(1))
	verifsym.Assert(b.Hash() == b.Header().Hash(), "changing a returned header changes the block")
	nonce := verifsym.U64("nonce")
	var mix common.Hash
	copy(mix[:], verifsym.WideBytes("mix", 32))
	var sig [65]byte
	copy(sig[:], verifsym.WideBytes("sig", 65))
	s := b.WithMingResult(nonce, mix, &sig).(*types.RootBlock)
	verifsym.Assert(s.Hash() == s.Header().Hash() && s.Header().SealHash() == b.Header().SealHash() && s.Nonce() == nonce && s.Header().MixDigest == mix && s.Header().Signature == sig, "sealing changes more than the seal")
}
