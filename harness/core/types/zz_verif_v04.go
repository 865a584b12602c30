package types

import (
	"math/big"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/verifsym"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
)

// What is signed pins down every field that execution uses.
//verif:harness V04 time=120 qtime=20 reach=v0,v2
//verif:bounds two transactions with all fields symbolic, differing in any two fields of a chosen group (each numeric field within one or two encoding lengths, 2 payload bytes), both signing schemes that hash RLP
func VerifH_V04_SigningHash() {
	w := verifsym.Choose("width", 2)
	a, b := verifSymPair(w)
	s := NewEIP155Signer(uint32(verifsym.U32("net")))
	if verifsym.Choose("scheme", 2) == 0 {
		verifsym.Reach("v0")
		if s.Hash(a) == s.Hash(b) {
			da, db := &a.data, &b.data
			verifsym.Assert(verifSameCore(da, db), "two different transactions share a signing hash")
			verifsym.Assert(verifsym.And(*da.FromFullShardKey == *db.FromFullShardKey, *da.ToFullShardKey == *db.ToFullShardKey), "shard keys are not covered by the signature")
			verifsym.Assert(verifsym.And(da.GasTokenID == db.GasTokenID, da.TransferTokenID == db.TransferTokenID), "token ids are not covered by the signature")
		}
		return
	}
	verifsym.Reach("v2")
	if a.getUnsignedHashForEip155(a.NetworkId()) == b.getUnsignedHashForEip155(b.NetworkId()) {
		verifsym.Assert(verifSameCore(&a.data, &b.data), "two different version-2 transactions share a signing hash")
	}
}

func verifConcreteTx(version uint32) *EvmTransaction {
	return NewEvmTransaction(7, account.Recipient{9, 8, 7}, big.NewInt(1000), 30000, big.NewInt(5), 0x10000, 0x10001, 3, version, []byte{1, 2}, 35760, 35761)
}

// Only the key holder's own signature yields the key holder as sender: changing any
// signed field, or any part of the signature, never leaves the sender unchanged.
//verif:harness V04 time=180 reach=ok,changed,refused
//verif:bounds one signed transaction per signing scheme (versions 0,1,2; concrete key; a small and a large network id), one field replaced by an arbitrary other value of the same width or one signature component replaced (any V in ±2^70; S by its mirror; R, S by arbitrary 256-bit values)
func VerifH_V04_Sender() {
	key, err := crypto.HexToECDSA("45a915e4d060149eb4365960e6a7a45f334393093061116b197e3240065ff2d8")
	if err != nil {
		panic(err)
	}
	owner := crypto.PubkeyToAddress(key.PublicKey)
	version := uint32(verifsym.Choose("version", 3))
	tx := verifConcreteTx(version)
	net := []uint32{3, 110001}[verifsym.Choose("network", 2)]
	tx.data.NetworkId = net
	signer := NewEIP155Signer(net)
	var h common.Hash
	vbase := int64(27)
	switch version {
	case 0:
		h = signer.Hash(tx)
	case 1:
		h, err = tx.typedHash()
		if err != nil {
			panic(err)
		}
	case 2:
		h = tx.getUnsignedHashForEip155(net)
		vbase = 35 + 2*int64(net)
	}
	sig, err := crypto.Sign(h[:], key)
	if err != nil {
		panic(err)
	}
	R, S := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64])
	goodV := vbase + int64(sig[64])
	V := big.NewInt(goodV)
	d := &tx.data
	d.V, d.R, d.S = V, R, S
	what := verifsym.Choose("what", 16)
	covered := true
	n, _ := new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)
	switch what {
	case 0:
		covered = false
	case 1:
		d.AccountNonce++
	case 2:
		d.Price = big.NewInt(6)
	case 3:
		d.GasLimit++
	case 4:
		d.Recipient = &account.Recipient{9, 8, 6}
	case 5:
		d.Recipient = nil
	case 6:
		d.Amount = big.NewInt(1001)
	case 7:
		d.Payload = []byte{1, 3}
	case 8:
		d.NetworkId = net + 1
		signer = NewEIP155Signer(net + 1)
		if version == 2 {
			d.V = big.NewInt(goodV + 2)
		}
	case 9:
		k := Uint32(0x10002)
		d.FromFullShardKey = &k
		covered = version != 2
	case 10:
		k := Uint32(0x10002)
		d.ToFullShardKey = &k
		covered = version != 2
	case 11:
		d.GasTokenID++
		covered = version != 2
	case 12:
		d.TransferTokenID++
		covered = version != 2
	case 13: // any V
		d.V = verifsym.Big("V", big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), 70))
		verifsym.Assume(d.V.Cmp(big.NewInt(goodV)) != 0)
	case 14: // malleated twin
		d.S = new(big.Int).Sub(n, S)
		d.V = big.NewInt(vbase + 1 - int64(sig[64]))
	case 15: // network of another deployment
		signer = NewEIP155Signer(net + 1)
	}
	got, err := Sender(signer, tx)
	verifsym.Observe("err", err)
	if what == 15 && version != 2 {
		verifsym.Assert(err != nil, "a transaction signed for one network was accepted by another")
		return
	}
	if what == 15 {
		return
	}
	if !covered {
		verifsym.Reach("ok")
		verifsym.Assert(err == nil && got == owner, "a correctly signed transaction was attributed to someone else or refused")
		return
	}
	if err == nil {
		verifsym.Reach("changed")
		verifsym.Assert(what != 14, "the mirrored (malleable) signature is accepted")
		if what == 13 {
			other := vbase + 1 - int64(sig[64])
			verifsym.Assert(d.V.Cmp(big.NewInt(other)) == 0, "a recovery id outside the two valid values is accepted")
		} else {
			verifsym.Assert(got != owner, "an altered transaction is still attributed to the signer")
		}
		return
	}
	verifsym.Reach("refused")
}
