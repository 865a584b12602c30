package main

import (
	"crypto/hmac"
	"crypto/sha256"
	"encoding/binary"
	"go/token"
	"math/big"
	"math/bits"
	"sync"
)

const tokADD = token.ADD

var intrMu sync.Mutex

var keccakRC = [24]uint64{0x0000000000000001, 0x0000000000008082, 0x800000000000808A, 0x8000000080008000, 0x000000000000808B, 0x0000000080000001, 0x8000000080008081, 0x8000000000008009, 0x000000000000008A, 0x0000000000000088, 0x0000000080008009, 0x000000008000000A, 0x000000008000808B, 0x800000000000008B, 0x8000000000008089, 0x8000000000008003, 0x8000000000008002, 0x8000000000000080, 0x000000000000800A, 0x800000008000000A, 0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008}

func keccakF(a *[25]uint64) {
	rot := [25]int{0, 1, 62, 28, 27, 36, 44, 6, 55, 20, 3, 10, 43, 25, 39, 41, 45, 15, 21, 8, 18, 2, 61, 56, 14}
	for r := 0; r < 24; r++ {
		var c, d [5]uint64
		for x := 0; x < 5; x++ {
			c[x] = a[x] ^ a[x+5] ^ a[x+10] ^ a[x+15] ^ a[x+20]
		}
		for x := 0; x < 5; x++ {
			d[x] = c[(x+4)%5] ^ bits.RotateLeft64(c[(x+1)%5], 1)
		}
		for i := range a {
			a[i] ^= d[i%5]
		}
		var b [25]uint64
		for x := 0; x < 5; x++ {
			for y := 0; y < 5; y++ {
				b[y+5*((2*x+3*y)%5)] = bits.RotateLeft64(a[x+5*y], rot[x+5*y])
			}
		}
		for x := 0; x < 5; x++ {
			for y := 0; y < 5; y++ {
				a[x+5*y] = b[x+5*y] ^ (^b[(x+1)%5+5*y] & b[(x+2)%5+5*y])
			}
		}
		a[0] ^= keccakRC[r]
	}
}

func keccakSum(in []byte, outLen int, ds byte) []byte {
	rate := 200 - 2*outLen
	var st [25]uint64
	p := append(append([]byte{}, in...), ds)
	for len(p)%rate != 0 {
		p = append(p, 0)
	}
	p[len(p)-1] |= 0x80
	for i := 0; i < len(p); i += rate {
		for j := 0; j < rate/8; j++ {
			st[j] ^= binary.LittleEndian.Uint64(p[i+8*j:])
		}
		keccakF(&st)
	}
	out := make([]byte, 200)
	for i := range st {
		binary.LittleEndian.PutUint64(out[8*i:], st[i])
	}
	return out[:outLen]
}

// ---- secp256k1 (concrete only)

var secP, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 16)
var secN, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)
var secGx, _ = new(big.Int).SetString("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", 16)
var secGy, _ = new(big.Int).SetString("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8", 16)

type ecp struct{ x, y *big.Int } // nil x = infinity

func ecAdd(a, b ecp) ecp {
	if a.x == nil {
		return b
	}
	if b.x == nil {
		return a
	}
	m := new(big.Int)
	if a.x.Cmp(b.x) == 0 {
		if a.y.Cmp(b.y) != 0 || a.y.Sign() == 0 {
			return ecp{}
		}
		m.Mul(a.x, a.x)
		m.Mul(m, big.NewInt(3))
		m.Mul(m, new(big.Int).ModInverse(new(big.Int).Lsh(a.y, 1), secP))
	} else {
		m.Sub(b.y, a.y)
		d := new(big.Int).Sub(b.x, a.x)
		d.Mod(d, secP)
		m.Mul(m, d.ModInverse(d, secP))
	}
	m.Mod(m, secP)
	x := new(big.Int).Mul(m, m)
	x.Sub(x, a.x)
	x.Sub(x, b.x)
	x.Mod(x, secP)
	y := new(big.Int).Sub(a.x, x)
	y.Mul(y, m)
	y.Sub(y, a.y)
	y.Mod(y, secP)
	return ecp{x, y}
}
var ecMulCache sync.Map

func ecMul(k *big.Int, p ecp) ecp {
	r := ecp{}
	if p.x == nil {
		return r
	}
	key := string(k.Bytes()) + "|" + string(p.x.Bytes()) + "|" + string(p.y.Bytes())
	if v, ok := ecMulCache.Load(key); ok {
		return v.(ecp)
	}
	defer func() { ecMulCache.Store(key, r) }()
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = ecAdd(r, r)
		if k.Bit(i) == 1 {
			r = ecAdd(r, p)
		}
	}
	return r
}

func ecRecover(msg, sig []byte) []byte {
	if len(sig) != 65 || sig[64] >= 4 || len(msg) != 32 {
		return nil
	}
	r, s := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64])
	if r.Sign() == 0 || s.Sign() == 0 || r.Cmp(secN) >= 0 || s.Cmp(secN) >= 0 {
		return nil
	}
	x := new(big.Int).Set(r)
	if sig[64]&2 != 0 {
		x.Add(x, secN)
		if x.Cmp(secP) >= 0 {
			return nil
		}
	}
	y2 := new(big.Int).Exp(x, big.NewInt(3), secP)
	y2.Add(y2, big.NewInt(7))
	y2.Mod(y2, secP)
	y := new(big.Int).ModSqrt(y2, secP)
	if y == nil {
		return nil
	}
	if y.Bit(0) != uint(sig[64]&1) {
		y.Sub(secP, y)
	}
	ri := new(big.Int).ModInverse(r, secN)
	e := new(big.Int).SetBytes(msg)
	u1 := new(big.Int).Mul(e, ri)
	u1.Neg(u1)
	u1.Mod(u1, secN)
	u2 := new(big.Int).Mul(s, ri)
	u2.Mod(u2, secN)
	q := ecAdd(ecMul(u1, ecp{secGx, secGy}), ecMul(u2, ecp{x, y}))
	if q.x == nil {
		return nil
	}
	out := make([]byte, 65)
	out[0] = 4
	q.x.FillBytes(out[1:33])
	q.y.FillBytes(out[33:])
	return out
}

func (w *W) ecrecover(fr *frame, msg, sig []Value) Value {
	if valsConcrete(msg) && valsConcrete(sig) {
		p := ecRecover(valsToBytes(msg), valsToBytes(sig))
		if p == nil {
			return tup(Value{}, w.eng.mkError("recovery failed"))
		}
		return tup(sliceOfBytes(p), Value{})
	}
	// only the recovery id is symbolic: case split
	if valsConcrete(msg) && len(sig) == 65 && valsConcrete(sig[:64]) {
		t := w.toInt(sig[64], u8k)
		for i := 0; i < 4; i++ {
			if w.decide(w.ctx.Eq(t, w.ctx.IntI(int64(i)))) {
				return w.ecrecover(fr, msg, append(append([]Value{}, sig[:64]...), Value{n: uint64(i)}))
			}
		}
		return tup(Value{}, w.eng.mkError("recovery failed"))
	}
	// symbolic: the public key is an uninterpreted injective function of (msg, sig); recovery may fail
	if w.choose(2) == 1 {
		return tup(Value{}, w.eng.mkError("recovery failed"))
	}
	in := append(append([]Value{}, msg...), sig...)
	out := w.hash("ecrecover", in, 64, func(b []byte) []byte {
		p := ecRecover(b[:32], b[32:])
		if p == nil {
			return make([]byte, 64)
		}
		return p[1:]
	})
	return tup(Value{p: &SliceV{append([]Value{{n: 4}}, out...)}}, Value{})
}

// ecSign follows libsecp256k1: RFC 6979 nonce (HMAC-SHA256), low s.
func ecSign(msg, seckey []byte) []byte {
	mac := func(k []byte, parts ...[]byte) []byte {
		h := hmac.New(sha256.New, k)
		for _, p := range parts {
			h.Write(p)
		}
		return h.Sum(nil)
	}
	d := new(big.Int).SetBytes(seckey)
	if d.Sign() == 0 || d.Cmp(secN) >= 0 {
		return nil
	}
	V, K := make([]byte, 32), make([]byte, 32)
	for i := range V {
		V[i] = 1
	}
	K = mac(K, V, []byte{0}, seckey, msg)
	V = mac(K, V)
	K = mac(K, V, []byte{1}, seckey, msg)
	V = mac(K, V)
	z := new(big.Int).SetBytes(msg)
	for first := true; ; first = false {
		if !first {
			K = mac(K, V, []byte{0})
			V = mac(K, V)
		}
		V = mac(K, V)
		k := new(big.Int).SetBytes(V)
		if k.Sign() == 0 || k.Cmp(secN) >= 0 {
			continue
		}
		R := ecMul(k, ecp{secGx, secGy})
		rec := byte(R.y.Bit(0))
		r := new(big.Int).Set(R.x)
		if r.Cmp(secN) >= 0 {
			r.Sub(r, secN)
			rec |= 2
		}
		if r.Sign() == 0 {
			continue
		}
		s := new(big.Int).Mul(r, d)
		s.Add(s, z)
		s.Mul(s, new(big.Int).ModInverse(k, secN))
		s.Mod(s, secN)
		if s.Sign() == 0 {
			continue
		}
		if s.Cmp(new(big.Int).Rsh(secN, 1)) > 0 {
			s.Sub(secN, s)
			rec ^= 1
		}
		out := make([]byte, 65)
		r.FillBytes(out[:32])
		s.FillBytes(out[32:64])
		out[64] = rec
		return out
	}
}
