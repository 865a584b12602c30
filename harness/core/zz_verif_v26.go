package core

import (
	"math/big"

	"github.com/QuarkChain/goquarkchain/verifsym"
	"github.com/ethereum/go-ethereum/common/math"
)

// The arithmetic of contract code is that of 256-bit words, for all words.
//
//verif:harness V26 time=120 ttime=300 reach=zero,neg,pos
//verif:bounds all 256-bit operands of ADD MUL SUB DIV SDIV MOD SMOD ADDMOD MULMOD LT GT SLT SGT EQ ISZERO NOT
func VerifH_V26_Words() {
	ops := []byte{0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x09, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x19}
	op := ops[verifsym.Choose("op", len(ops))]
	in := verifCat(verifsym.WideBytes("a", 32), verifsym.WideBytes("b", 32), verifsym.WideBytes("c", 32))
	a, b, c := new(big.Int).SetBytes(in[:32]), new(big.Int).SetBytes(in[32:64]), new(big.Int).SetBytes(in[64:])
	code := verifCat([]byte{0x60, 0x77, 0x60, 64, 0x35, 0x60, 32, 0x35, 0x60, 0, 0x35, op}, verifRet32)
	want := new(big.Int)
	sa, sb := verifSigned(a), verifSigned(b)
	switch op {
	case 0x01:
		want.Add(a, b)
	case 0x02:
		want.Mul(a, b)
	case 0x03:
		want.Sub(a, b)
	case 0x04:
		if b.Sign() != 0 {
			want.Div(a, b)
		}
	case 0x05:
		if sb.Sign() != 0 {
			want.Div(new(big.Int).Abs(sa), new(big.Int).Abs(sb))
			if (sa.Sign() < 0) != (sb.Sign() < 0) {
				want.Neg(want)
			}
		}
	case 0x06:
		if b.Sign() != 0 {
			want.Mod(a, b)
		}
	case 0x07:
		if sb.Sign() != 0 {
			want.Mod(new(big.Int).Abs(sa), new(big.Int).Abs(sb))
			if sa.Sign() < 0 {
				want.Neg(want)
			}
		}
	case 0x08:
		if c.Sign() != 0 {
			want.Mod(want.Add(a, b), c)
		}
	case 0x09:
		if c.Sign() != 0 {
			want.Mod(want.Mul(a, b), c)
		}
	case 0x10:
		want = verifBit(a.Cmp(b) < 0)
	case 0x11:
		want = verifBit(a.Cmp(b) > 0)
	case 0x12:
		want = verifBit(sa.Cmp(sb) < 0)
	case 0x13:
		want = verifBit(sa.Cmp(sb) > 0)
	case 0x14:
		want = verifBit(a.Cmp(b) == 0)
	case 0x15:
		want = verifBit(a.Sign() == 0)
	case 0x19:
		want.Sub(new(big.Int).Sub(verifW256, big.NewInt(1)), a)
	}
	switch want.Sign() {
	case 0:
		verifsym.Reach("zero")
	case -1:
		verifsym.Reach("neg")
	default:
		verifsym.Reach("pos")
	}
	want.Mod(want, verifW256)
	ret, _, err := verifExec(verifState(), code, in, 100000)
	verifsym.Assert(err == nil && len(ret) == 32, "the instruction runs")
	verifsym.Assert(verifEq(new(big.Int).SetBytes(ret), want), "result of an arithmetic instruction")
}

// Bit operations work bit by bit, for all words.
//
//verif:harness V26 time=60 ttime=100 reach=bits
//verif:bounds all 256-bit operands of AND OR XOR NOT
func VerifH_V26_Bits() {
	op := []byte{0x16, 0x17, 0x18, 0x19}[verifsym.Choose("op", 4)]
	in := verifCat(verifsym.BVBytes("a", 32), verifsym.BVBytes("b", 32))
	want := make([]byte, 32)
	for i := range want {
		switch op {
		case 0x16:
			want[i] = in[i] & in[32+i]
		case 0x17:
			want[i] = in[i] | in[32+i]
		case 0x18:
			want[i] = in[i] ^ in[32+i]
		default:
			want[i] = ^in[i]
		}
	}
	code := verifCat(verifPush(32), []byte{0x35}, verifPush(0), []byte{0x35, op}, verifRet32)
	ret, _, err := verifExec(verifState(), code, in, 100000)
	verifsym.Assert(err == nil && len(ret) == 32, "the instruction runs")
	for i := range want {
		verifsym.Assert(ret[i] == want[i], "result of a bit instruction")
	}
	verifsym.Reach("bits")
}

// Shifts, byte selection and sign extension, for all words and every kind of shift amount or index.
//
//verif:harness V26 time=100 ttime=300 reach=small,big
//verif:bounds all 256-bit operands of BYTE SIGNEXTEND SHL SHR SAR; index and shift amount each of 0, 1, 7, 8, 15, 30, 31, 32, 127, 248, 255, 256, 2^64+1, 2^256-1
func VerifH_V26_Shifts() {
	ops := []byte{0x1a, 0x0b, 0x1b, 0x1c, 0x1d}
	op := ops[verifsym.Choose("op", len(ops))]
	in := verifsym.WideBytes("a", 32)
	a := new(big.Int).SetBytes(in)
	ns := []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(7), big.NewInt(8), big.NewInt(15), big.NewInt(30), big.NewInt(31), big.NewInt(32), big.NewInt(127), big.NewInt(248), big.NewInt(255), big.NewInt(256),
		verifAdd(new(big.Int).Lsh(big.NewInt(1), 64), big.NewInt(1)), verifSub(verifW256, big.NewInt(1))}
	nb := ns[verifsym.Choose("n", len(ns))]
	n := uint(256)
	if nb.Cmp(big.NewInt(256)) < 0 {
		n = uint(nb.Int64())
		verifsym.Reach("small")
	} else {
		verifsym.Reach("big")
	}
	p := new(big.Int).Lsh(big.NewInt(1), n)
	want := new(big.Int)
	switch op {
	case 0x1a:
		if n < 32 {
			want.SetUint64(uint64(in[n]))
		}
	case 0x0b:
		want = a
		if n < 31 {
			p.Lsh(big.NewInt(1), 8*n+8)
			want = new(big.Int).Mod(a, p)
			if want.Cmp(new(big.Int).Rsh(p, 1)) >= 0 {
				want = verifAdd(want, verifSub(verifW256, p))
			}
		}
	case 0x1b:
		want.Mod(verifMul(a, p), verifW256)
	case 0x1c:
		want.Div(a, p)
	case 0x1d:
		want.Div(verifSigned(a), p)
		want.Mod(want, verifW256)
	}
	code := verifCat(verifPush(0), []byte{0x35}, verifPushW(nb), []byte{op}, verifRet32)
	ret, _, err := verifExec(verifState(), code, in, 100000)
	verifsym.Assert(err == nil && len(ret) == 32, "the instruction runs")
	verifsym.Assert(verifEq(new(big.Int).SetBytes(ret), want), "result of a shift")
}

// Powers are powers modulo 2^256, and cost by the length of the exponent.
//
//verif:harness V26 time=120 ttime=300 reach=done
//verif:bounds all bases with exponents 0, 1, 2 and 3; 8 bases with 18 exponents up to 65535
func VerifH_V26_Exp() {
	var in []byte
	a, e := new(big.Int), new(big.Int)
	want := big.NewInt(1)
	if verifsym.Choose("kind", 2) == 0 {
		in = verifCat(verifsym.WideBytes("a", 32), make([]byte, 32))
		in[63] = byte(verifsym.Choose("e", 4))
		a.SetBytes(in[:32])
		e.SetBytes(in[32:])
		for i := byte(0); i < in[63]; i++ {
			want = verifMul(want, a)
			want.Mod(want, verifW256)
		}
	} else {
		as := []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(2), big.NewInt(3), big.NewInt(256), verifSub(verifW256, big.NewInt(1)), verifW255, verifAdd(verifW255, big.NewInt(7))}
		a = as[verifsym.Choose("base", len(as))]
		es := []int{0, 1, 2, 3, 4, 5, 7, 8, 15, 31, 64, 127, 128, 255, 256, 257, 511, 65535}
		x := es[verifsym.Choose("e", len(es))]
		e.SetUint64(uint64(x))
		in = verifCat(verifPushW(a)[1:], verifPushW(e)[1:])
		for i := 0; i < x; i++ {
			want = verifMul(want, a)
			want.Mod(want, verifW256)
		}
	}
	code := verifCat(verifPush(32), []byte{0x35}, verifPush(0), []byte{0x35, 0x0a}, verifRet32)
	ret, left, err := verifExec(verifState(), code, in, 100000)
	verifsym.Assert(err == nil && len(ret) == 32, "the instruction runs")
	verifsym.Assert(verifEq(new(big.Int).SetBytes(ret), want), "power")
	verifsym.Assert(100000-left == 4*3+10+50*uint64(len(e.Bytes()))+3+6+3+3, "gas of a power")
	verifsym.Reach("done")
}

// verifMem: the memory of the yellow paper, and what it has cost
type verifMem struct {
	b   []byte
	gas uint64
}

func (m *verifMem) touch(off, n int) {
	if n == 0 {
		return
	}
	cost := func() uint64 { w := uint64(len(m.b) / 32); return 3*w + w*w/512 }
	old := cost()
	for len(m.b) < off+n {
		m.b = append(m.b, make([]byte, 32)...)
	}
	m.gas += cost() - old
}

// verifSlice: n bytes of data from off, zero beyond its end
func verifSlice(data []byte, off *big.Int, n int) []byte {
	r := make([]byte, n)
	if off.Cmp(big.NewInt(int64(len(data)))) < 0 {
		copy(r, data[off.Int64():])
	}
	return r
}

// Memory holds what was stored last, reads zero elsewhere, grows by whole
// words and costs what its size costs.
//
//verif:harness V26 time=200 ttime=900 paths=200000 reach=copied,beyond,huge
//verif:bounds any two of MSTORE, MSTORE8, MLOAD (kept in memory), CALLDATACOPY, CODECOPY, EXTCODECOPY at memory offsets 0, 31, 40 and 2000, source offsets 0, 30, 70 and 2^64, lengths 0, 1 and 33; all contents of the words stored and of the input
func VerifH_V26_Memory() {
	in := verifsym.BVBytes("in", 64)
	ext := []byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35}
	m := &verifMem{}
	var code []byte
	gas := uint64(0)
	type cp struct {
		off, n int
		src    *big.Int
	}
	var codeCopies []cp
	place := func(c cp, data []byte) {
		m.touch(c.off, c.n)
		copy(m.b[verifMin(c.off, len(m.b)):], verifSlice(data, c.src, c.n))
		gas += 3 * uint64((c.n+31)/32)
	}
	big64 := new(big.Int).Lsh(big.NewInt(1), 64)
	n := 2
	for i := 0; i < n; i++ {
		off := []int{0, 31, 40, 2000}[verifsym.Choose("off", 3+i)]
		word := uint64(i * 32)
		switch k := verifsym.Choose("op", 6); k {
		case 0:
			code = verifCat(code, verifPush(word), []byte{0x35}, verifPush(uint64(off)), []byte{0x52})
			m.touch(off, 32)
			copy(m.b[off:], in[word:word+32])
			gas += 3 + 3 + 3 + 3
		case 1:
			code = verifCat(code, verifPush(word), []byte{0x35}, verifPush(uint64(off)), []byte{0x53})
			m.touch(off, 1)
			m.b[off] = in[word+31]
			gas += 3 + 3 + 3 + 3
		case 2: // MLOAD, and store it at 64
			code = verifCat(code, verifPush(uint64(off)), []byte{0x51}, verifPush(64), []byte{0x52})
			m.touch(off, 32)
			w := append([]byte{}, m.b[off:off+32]...)
			m.touch(64, 32)
			copy(m.b[64:], w)
			gas += 3 + 3 + 3 + 3
		default:
			c := cp{off: off, n: []int{0, 1, 33}[verifsym.Choose("len", 3)], src: []*big.Int{big.NewInt(0), big.NewInt(30), big.NewInt(70), big64}[verifsym.Choose("src", 4)]}
			if c.n > 0 {
				verifsym.Reach("copied")
				if c.src.Cmp(big.NewInt(64)) > 0 {
					verifsym.Reach("beyond")
				}
				if c.src == big64 {
					verifsym.Reach("huge")
				}
			}
			code = verifCat(code, verifPush(uint64(c.n)), verifPushW(c.src), verifPush(uint64(off)))
			gas += 3 * 3
			switch k {
			case 3:
				code = append(code, 0x37)
				gas += 3
				place(c, in)
			case 4:
				code = append(code, 0x39)
				gas += 3
				codeCopies = append(codeCopies, c)
				if i == 0 {
					n = 1 // the code must be complete before it can be copied
				}
			case 5:
				code = verifCat(code, []byte{0x73}, verifAddrB(0x21), []byte{0x3c})
				gas += 3 + 700
				place(c, ext)
			}
		}
	}
	code = verifCat(code, []byte{0x59, 0x60, 0, 0xf3})
	gas += 2 + 3
	for _, c := range codeCopies {
		place(c, code)
	}
	st := verifState()
	st.SetCode(verifAddr(0x21), ext)
	ret, left, err := verifExec(st, code, in, 100000)
	verifsym.Assert(err == nil && len(ret) == len(m.b), "size of memory")
	for i := range ret {
		verifsym.Assert(ret[i] == m.b[i], "content of memory")
	}
	verifsym.Assert(100000-left == gas+m.gas, "gas of memory operations")
}

func verifMin(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// The stack keeps its order under every PUSH, DUP, SWAP and POP.
//
//verif:harness V26 time=100 ttime=200 paths=20000 reach=push,cut,dup,swap
//verif:bounds PUSH1..32 (also cut off by the end of the code), DUP1..16, SWAP1..16 and POP on 17 arbitrary words; JUMPDEST, PC, MSIZE, GAS, CALLDATASIZE, CODESIZE on top of them
func VerifH_V26_Stack() {
	const n = 17
	in := verifsym.BVBytes("in", 32*n)
	var code []byte
	var st [][]byte
	for i := 0; i < n; i++ {
		code = verifCat(code, verifPush(uint64(32*i)), []byte{0x35})
		st = append(st, in[32*i:32*i+32])
	}
	num := func(x uint64) []byte { return verifPushW(new(big.Int).SetUint64(x))[1:] }
	gas := uint64(6 * n)
	k := verifsym.Choose("op", 32+16+16+1+6)
	finish := func() []byte { // store the whole stack from the top
		var t []byte
		for i := range st {
			t = verifCat(t, verifPush(uint64(32*i)), []byte{0x52})
		}
		return verifCat(t, verifPush(uint64(32*len(st))), verifPush(0), []byte{0xf3})
	}
	switch {
	case k < 32:
		w := make([]byte, 32)
		code = append(code, byte(0x60+k))
		for i := 0; i <= k; i++ {
			code = append(code, byte(0x5b-i%3))
			w[31-k+i] = byte(0x5b - i%3)
		}
		st = append(st, w)
		gas += 3
		verifsym.Reach("push")
	case k < 48:
		st = append(st, st[n-1-(k-32)])
		code = append(code, byte(0x80+k-32))
		gas += 3
		verifsym.Reach("dup")
	case k < 64:
		j := n - 2 - (k - 48)
		st[n-1], st[j] = st[j], st[n-1]
		code = append(code, byte(0x90+k-48))
		gas += 3
		verifsym.Reach("swap")
	case k == 64:
		st = st[:n-1]
		code = append(code, 0x50)
		gas += 2
	case k == 65:
		code = append(code, 0x5b)
		gas++
	case k == 66:
		st = append(st, num(uint64(len(code))))
		code = append(code, 0x58)
		gas += 2
	case k == 67:
		st = append(st, num(0))
		code = append(code, 0x59)
		gas += 2
	case k == 68:
		gas += 2
		st = append(st, num(100000-gas))
		code = append(code, 0x5a)
	case k == 69:
		st = append(st, num(32*n))
		code = append(code, 0x36)
		gas += 2
	case k == 70:
		code = append(code, 0x38)
		st = append(st, nil)
		st[n] = num(uint64(len(code) + len(finish())))
		gas += 2
	}
	if k < 32 && verifsym.Choose("cut", 2) == 1 { // the code ends inside the number: the rest of it is zero, and it stops there
		code = code[:len(code)-1-verifsym.Choose("by", k+1)]
		ret, left, err := verifExec(verifState(), code, in, 100000)
		verifsym.Assert(err == nil && len(ret) == 0 && 100000-left == gas, "code that ends in a number")
		verifsym.Reach("cut")
		return
	}
	ret, _, err := verifExec(verifState(), verifCat(code, finish()), in, 100000)
	verifsym.Assert(err == nil && len(ret) == 32*len(st), "stack operation runs")
	for i := range st {
		for j := 0; j < 32; j++ {
			verifsym.Assert(ret[32*i+j] == st[len(st)-1-i][j], "stack after the operation")
		}
	}
}

// Code can only be entered at a JUMPDEST that is an instruction.
//
//verif:harness V26 time=60 ttime=100 reach=jumped,refused,passed
//verif:bounds code with JUMPDESTs as instructions and inside pushed numbers; destinations 0 to 149 and all of 1000 to 2^256-1, all conditions of JUMP and JUMPI
func VerifH_V26_Jump() {
	in := make([]byte, 32)
	far := verifsym.Choose("far", 2) == 1
	if far {
		lim := []*big.Int{big.NewInt(1000), new(big.Int).Lsh(big.NewInt(1), 62), new(big.Int).Lsh(big.NewInt(1), 64), verifW255, verifW256}
		r := verifsym.Choose("range", 4)
		in = math.PaddedBigBytes(verifsym.Big("dest", lim[r], verifSub(lim[r+1], big.NewInt(1))), 32)
	} else { // every byte of the code and the two after it
		in[31] = byte(verifsym.Choose("near", 150))
	}
	in = verifCat(in, verifsym.WideBytes("cond", 32))
	cond := verifsym.Choose("cond", 2) == 1
	var code []byte
	if cond {
		code = []byte{0x60, 32, 0x35, 0x60, 0, 0x35, 0x57}
	} else {
		code = []byte{0x60, 0, 0x35, 0x56}
	}
	answer := func(x byte) []byte { return verifCat([]byte{0x60, x}, verifRet32) }
	code = verifCat(code, answer(1))
	var good []int
	mark := func(x byte) {
		good = append(good, len(code))
		code = verifCat(code, []byte{0x5b}, answer(x))
	}
	mark(2)
	code = append(code, 0x60, 0x5b, 0x61, 0x5b, 0x5b)
	mark(3)
	code = append(code, 0x7f)
	for i := 0; i < 32; i++ {
		code = append(code, 0x5b)
	}
	mark(4)
	code = append(code, 0x7e, 0x5b, 0x5b) // a number cut off by the end
	d, c := new(big.Int).SetBytes(in[:32]), new(big.Int).SetBytes(in[32:])
	ret, left, err := verifExec(verifState(), code, in, 100000)
	if cond && c.Sign() == 0 {
		verifsym.Assert(err == nil && len(ret) == 32 && ret[31] == 1, "a jump whose condition is zero")
		verifsym.Reach("passed")
		return
	}
	for i, g := range good {
		if d.Cmp(big.NewInt(int64(g))) == 0 {
			verifsym.Assert(err == nil && len(ret) == 32 && int(ret[31]) == 2+i, "a jump to a JUMPDEST")
			verifsym.Reach("jumped")
			return
		}
	}
	verifsym.Assert(err != nil && left == 0, "a jump to anywhere else")
	verifsym.Reach("refused")
}

// verifPops: operands per instruction, -1 for what is not an instruction
func verifPops(op int) int {
	switch {
	case op == 0x15 || op == 0x19 || op == 0x31 || op == 0x35 || op == 0x3b || op == 0x3f || op == 0x40 || op == 0x50 || op == 0x51 || op == 0x54 || op == 0x56 || op == 0xff:
		return 1
	case op == 0x08 || op == 0x09 || op == 0x37 || op == 0x39 || op == 0x3e || op == 0xf0:
		return 3
	case op == 0x3c || op == 0xf5:
		return 4
	case op == 0xf1 || op == 0xf2:
		return 7
	case op == 0xf4 || op == 0xfa:
		return 6
	case op >= 0x01 && op <= 0x0b, op >= 0x10 && op <= 0x1d, op == 0x20, op == 0x52, op == 0x53, op == 0x55, op == 0x57, op == 0xf3, op == 0xfd:
		return 2
	case op == 0x00, op == 0x30, op >= 0x32 && op <= 0x34, op == 0x36, op == 0x38, op == 0x3a, op == 0x3d, op >= 0x41 && op <= 0x45, op >= 0x58 && op <= 0x5b, op >= 0x60 && op <= 0x7f:
		return 0
	case op >= 0x80 && op <= 0x8f:
		return op - 0x80 + 1
	case op >= 0x90 && op <= 0x9f:
		return op - 0x90 + 2
	case op >= 0xa0 && op <= 0xa4:
		return op - 0xa0 + 2
	}
	return -1
}

// Whatever the byte in the code and whatever lies on the stack, execution ends
// in a result or an error: too few operands, what is not an instruction and a
// stack too high are errors that take all gas and change nothing.
//
//verif:harness V26 time=100 ttime=200 paths=20000 reach=invalid,few,ran,high
//verif:bounds every byte as an instruction with one operand too few, exactly enough and one more, operands all equal to 0, 1, 100, 2^63, 2^64-1, 2^255 or 2^256-1; 1023 to 1025 words on the stack; any gas below 2^20
func VerifH_V26_Robust() {
	gas := verifsym.U64r("gas", 0, 1<<20)
	st := verifState()
	st.AddBalance(verifAddr(0x20), big.NewInt(1000), 35760)
	if verifsym.Choose("high", 2) == 1 {
		n := 1023 + verifsym.Choose("n", 3)
		code := make([]byte, n)
		for i := range code {
			code[i] = 0x30
		}
		verifsym.Assume(gas >= 4096)
		_, left, err := verifExec(st, code, nil, gas)
		verifsym.Assert((err == nil) == (n <= 1024), "no more than 1024 words")
		verifsym.Assert(err != nil || gas-left == uint64(2*n), "gas of simple instructions")
		verifsym.Reach("high")
		return
	}
	op := verifsym.Choose("op", 256)
	pops := verifPops(op)
	n := pops - 1 + verifsym.Choose("extra", 3)
	w := []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(100), new(big.Int).Lsh(big.NewInt(1), 63), new(big.Int).SetUint64(1<<64 - 1), verifW255, verifSub(verifW256, big.NewInt(1))}[verifsym.Choose("word", 7)]
	if n < 0 {
		n = 0
		if pops == 0 {
			return
		}
	}
	var code []byte
	for i := 0; i < n; i++ {
		code = append(code, verifPushW(w)...)
	}
	code = append(code, byte(op))
	before := st.GetNonce(verifAddr(0x20))
	_, left, err := verifExec(st, code, nil, gas)
	verifsym.Assert(left <= gas, "gas left")
	if pops < 0 {
		verifsym.Reach("invalid")
		verifsym.Assert(err != nil && left == 0, "a byte that is not an instruction")
		return
	}
	if n < pops {
		verifsym.Reach("few")
		verifsym.Assert(err != nil && left == 0, "an instruction without its operands")
		return
	}
	if err != nil {
		verifsym.Assert(st.GetNonce(verifAddr(0x20)) == before && st.GetBalance(verifAddr(0x20), 35760).Cmp(big.NewInt(1000)) == 0 && !st.HasSuicided(verifAddr(0x20)), "a failed run changes nothing")
	}
	verifsym.Reach("ran")
}
