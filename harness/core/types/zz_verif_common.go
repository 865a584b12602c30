package types

//verif:common
//verif:always

import (
	"crypto/ecdsa"
	"math/big"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/verifsym"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
)

// VerifSign signs tx under its own version's scheme (any other version: as version 0).
func VerifSign(tx *EvmTransaction, key *ecdsa.PrivateKey) {
	var h common.Hash
	base := int64(27)
	switch tx.data.Version {
	case 1:
		t, err := tx.typedHash()
		if err != nil {
			panic(err)
		}
		h = t
	case 2:
		h = tx.getUnsignedHashForEip155(tx.data.NetworkId)
		base = 35 + 2*int64(tx.data.NetworkId)
	default:
		h = tx.getUnsignedHash()
	}
	sig, err := crypto.Sign(h[:], key)
	if err != nil {
		panic(err)
	}
	tx.SetVRS(big.NewInt(base+int64(sig[64])), new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64]))
}

// VerifWireTx: a transaction with symbolic contents in a fixed byte layout (n: payload length, n==0: contract creation).
func VerifWireTx(p string, n int) *EvmTransaction {
	u := func(s string) uint64 { return verifsym.U64r(p+s, 1<<8, 1<<16-1) }
	bi := func(s string) *big.Int { return verifsym.Big(p+s, big.NewInt(1<<16), big.NewInt(1<<24-1)) }
	f, t := Uint32(verifsym.U32(p+"from")), Uint32(verifsym.U32(p+"to"))
	d := txdata{AccountNonce: u("nonce"), Price: bi("price"), GasLimit: u("gas"), Amount: bi("value"),
		Payload: verifsym.Bytes(p+"data", 2*n), NetworkId: uint32(u("network")), FromFullShardKey: &f, ToFullShardKey: &t,
		GasTokenID: u("gasToken"), TransferTokenID: u("transferToken"), Version: uint32(verifsym.U64r(p+"version", 1, 2)),
		V: verifsym.Big(p+"v", big.NewInt(1), big.NewInt(127)), R: bi("r"), S: bi("s")}
	if n > 0 {
		var to account.Recipient
		copy(to[:], verifsym.WideBytes(p+"recipient", 20))
		d.Recipient = &to
	}
	return &EvmTransaction{data: d}
}

func VerifSameTx(x, y *EvmTransaction, p string) {
	a, b := &x.data, &y.data
	verifsym.Assert(a.AccountNonce == b.AccountNonce && a.GasLimit == b.GasLimit && a.NetworkId == b.NetworkId && a.Version == b.Version, p)
	verifsym.Assert(a.GasTokenID == b.GasTokenID && a.TransferTokenID == b.TransferTokenID, p)
	verifsym.Assert(*a.FromFullShardKey == *b.FromFullShardKey && *a.ToFullShardKey == *b.ToFullShardKey, p)
	verifsym.Assert(a.Price.Cmp(b.Price) == 0 && a.Amount.Cmp(b.Amount) == 0, p)
	verifsym.Assert(a.V.Cmp(b.V) == 0 && a.R.Cmp(b.R) == 0 && a.S.Cmp(b.S) == 0, p)
	verifsym.Assert((a.Recipient == nil) == (b.Recipient == nil), p)
	if a.Recipient != nil {
		verifsym.Assert(*a.Recipient == *b.Recipient, p)
	}
	verifsym.Assert(string(a.Payload) == string(b.Payload), p)
}

func VerifPlainTx() *Transaction {
	return &Transaction{TxType: EvmTx, EvmTx: NewEvmTransaction(7, account.Recipient{9, 8, 7}, big.NewInt(1000), 30000, big.NewInt(5), 0x10000, 0x10001, 3, 0, []byte{1, 2}, 35760, 35761)}
}

// verifSymTx: every field symbolic, each within one encoding length, so that the
// byte layout is fixed and the solver decides equality of the encodings.
func verifSymTx(p string, wide int) *EvmTransaction {
	lo, hi := uint64(1<<8), uint64(1<<16-1)
	if wide == 1 {
		lo, hi = 1, 127
	}
	bi := func(n string) *big.Int {
		return verifsym.Big(p+n, new(big.Int).SetUint64(lo), new(big.Int).SetUint64(hi))
	}
	u := func(n string) uint64 { return verifsym.U64r(p+n, lo, hi) }
	kx, ky := verifsym.U64r(p+"from", 0, 255), verifsym.U64r(p+"to", 0, 255)
	f, t := Uint32(kx), Uint32(ky)
	if wide == 1 {
		f, t = Uint32(kx<<16), Uint32(ky<<16)
	}
	var to account.Recipient
	copy(to[:], verifsym.Bytes(p+"recipient", 20))
	d := txdata{AccountNonce: u("nonce"), Price: bi("price"), GasLimit: u("gas"), Recipient: &to, Amount: bi("value"),
		Payload: verifsym.Bytes(p+"data", 2), NetworkId: uint32(u("network")), FromFullShardKey: &f, ToFullShardKey: &t,
		GasTokenID: u("gasToken"), TransferTokenID: u("transferToken"), Version: 0, V: big.NewInt(27), R: big.NewInt(1), S: big.NewInt(1)}
	return &EvmTransaction{data: d}
}

// verifSymPair: two transactions; the solver-chosen group of fields differs freely, the rest agrees.
func verifSymPair(w int) (*EvmTransaction, *EvmTransaction) {
	a, c := verifSymTx("a", w), verifSymTx("b", w)
	b := &EvmTransaction{data: a.data}
	d, x := &b.data, &c.data
	switch verifsym.Choose("group", 6) {
	case 0:
		d.AccountNonce, d.GasLimit = x.AccountNonce, x.GasLimit
	case 1:
		d.Price, d.Amount = x.Price, x.Amount
	case 2:
		d.Recipient, d.Payload = x.Recipient, x.Payload
	case 3:
		d.FromFullShardKey, d.ToFullShardKey = x.FromFullShardKey, x.ToFullShardKey
	case 4:
		d.GasTokenID, d.TransferTokenID = x.GasTokenID, x.TransferTokenID
	case 5:
		d.NetworkId, d.Amount = x.NetworkId, x.Amount
	}
	return a, b
}

func verifSameCore(a, b *txdata) bool {
	return verifsym.And(verifsym.And(verifsym.And(a.AccountNonce == b.AccountNonce, a.GasLimit == b.GasLimit), verifsym.And(a.Price.Cmp(b.Price) == 0, a.Amount.Cmp(b.Amount) == 0)),
		verifsym.And(verifsym.And(*a.Recipient == *b.Recipient, string(a.Payload) == string(b.Payload)), a.NetworkId == b.NetworkId))
}

