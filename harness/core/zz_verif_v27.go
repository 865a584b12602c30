package core

import (
	"math/big"

	"github.com/QuarkChain/goquarkchain/core/vm"
	"github.com/QuarkChain/goquarkchain/verifsym"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/math"
	"github.com/ethereum/go-ethereum/crypto"
)

var (
	verifA20 = verifAddr(0x20)
	verifB21 = verifAddr(0x21)
	verifC22 = verifAddr(0x22)
)

const (
	verifCALL     = 0xf1
	verifCALLCODE = 0xf2
	verifDELEGATE = 0xf4
	verifSTATIC   = 0xfa
)

// verifCallOp: the instructions that call to, with input memory[0:in] and output memory[out:out+outLen], leaving the success flag
func verifCallOp(kind byte, to common.Address, gas, value []byte, in, out, outLen uint64) []byte {
	c := verifCat(verifPush(outLen), verifPush(out), verifPush(in), verifPush(0))
	if kind == verifCALL || kind == verifCALLCODE {
		c = append(c, value...)
	}
	return verifCat(c, []byte{0x73}, to[:], gas, []byte{kind})
}

// verifArg: word i of the input
func verifArg(i uint64) []byte { return append(verifPush(32*i), 0x35) }

// verifPut: the top of the stack into memory word i
func verifPut(i uint64) []byte { return append(verifPush(32*i), 0x52) }

// verifAnswer: return so much memory from word i
func verifAnswer(i, size uint64) []byte {
	return append(verifCat(verifPush(size), verifPush(32*i)), 0xf3)
}

func verifStore(key, value []byte) []byte { return verifCat(value, key, []byte{0x55}) }

func verifWordOf(b []byte, i int) *big.Int { return new(big.Int).SetBytes(b[32*i : 32*i+32]) }

type verifFrame struct {
	self, caller common.Address
	value        *big.Int
	static       bool
}

// verifEnter: the frame of a call of this kind
func verifEnter(f verifFrame, kind byte, to common.Address, v *big.Int) verifFrame {
	switch kind {
	case verifCALL:
		return verifFrame{to, f.self, v, f.static}
	case verifCALLCODE:
		return verifFrame{f.self, f.self, v, f.static}
	case verifDELEGATE:
		return verifFrame{f.self, f.caller, f.value, f.static}
	}
	return verifFrame{to, f.self, new(big.Int), true}
}

// A called contract sees the addresses and the value its kind of call gives it, writes into the storage and spends from
// the account this kind gives it, and has no effect at all when it, or what it runs inside, may not have one.
//
//verif:harness V27 time=150 ttime=300 paths=50000 reach=poor,static,wrote,moved
//verif:bounds A calls B, B calls C, each by CALL, CALLCODE, DELEGATECALL or STATICCALL, with any 256-bit values; C writing storage or not; balances 1000, 500 and 100
func VerifH_V27_Context() {
	kinds := []byte{verifCALL, verifCALLCODE, verifDELEGATE, verifSTATIC}
	k1, k2 := kinds[verifsym.Choose("k1", 4)], kinds[verifsym.Choose("k2", 4)]
	writes := verifsym.Choose("write", 2) == 1
	in := verifCat(verifsym.WideBytes("v1", 32), verifsym.WideBytes("v2", 32))
	v1, v2 := verifWordOf(in, 0), verifWordOf(in, 1)
	st := verifState()
	bal := map[common.Address]*big.Int{verifA20: big.NewInt(1000), verifB21: big.NewInt(500), verifC22: big.NewInt(100)}
	for a, b := range bal {
		st.AddBalance(a, b, 35760)
	}
	gas := []byte{0x5a}
	// A: [flag][what B answers]; B: [flag][what C answers]; C: its environment
	load := []byte{0x60, 64, 0x60, 0, 0x60, 0, 0x37}
	a := verifCat(load, verifCallOp(k1, verifB21, gas, verifArg(0), 64, 96, 192), verifPut(2), verifAnswer(2, 224))
	b := verifCat(load, verifCallOp(k2, verifC22, gas, verifArg(1), 64, 96, 160), verifPut(2), verifAnswer(2, 192))
	c := verifCat([]byte{0x30}, verifPut(0), []byte{0x33}, verifPut(1), []byte{0x32}, verifPut(2), []byte{0x34}, verifPut(3), []byte{0x30, 0x31}, verifPut(4))
	if writes {
		c = verifCat(c, verifStore([]byte{0x60, 3}, []byte{0x60, 9}))
	}
	c = verifCat(c, verifAnswer(0, 160))
	st.SetCode(verifB21, b)
	st.SetCode(verifC22, c)

	// the specification
	f := verifFrame{verifA20, verifAddr(1), new(big.Int), false}
	want := make([]*big.Int, 7)
	for i := range want {
		want[i] = new(big.Int)
	}
	stored := map[common.Address]bool{}
	spend := func(f verifFrame, kind byte, to common.Address, v *big.Int) bool {
		if kind != verifCALL && kind != verifCALLCODE {
			return true
		}
		if v.Cmp(bal[f.self]) > 0 {
			verifsym.Reach("poor")
			return false
		}
		if kind == verifCALL {
			bal[f.self] = verifSub(bal[f.self], v)
			bal[to] = verifAdd(bal[to], v)
			if v.Sign() > 0 {
				verifsym.Reach("moved")
			}
		}
		return true
	}
	before := map[common.Address]*big.Int{verifA20: bal[verifA20], verifB21: bal[verifB21], verifC22: bal[verifC22]}
	if spend(f, k1, verifB21, v1) {
		g := verifEnter(f, k1, verifB21, v1)
		switch {
		case k2 == verifCALL && g.static && v2.Sign() > 0:
			// B may not move value
			verifsym.Reach("static")
			bal = before
		default:
			want[0] = big.NewInt(1)
			mid := map[common.Address]*big.Int{verifA20: bal[verifA20], verifB21: bal[verifB21], verifC22: bal[verifC22]}
			if spend(g, k2, verifC22, v2) {
				h := verifEnter(g, k2, verifC22, v2)
				if writes && h.static {
					verifsym.Reach("static")
					bal = mid
				} else {
					want[1] = big.NewInt(1)
					want[2].SetBytes(h.self[:])
					want[3].SetBytes(h.caller[:])
					want[4].SetBytes(verifAddrB(1))
					want[5] = h.value
					want[6] = bal[h.self]
					if writes {
						verifsym.Reach("wrote")
						stored[h.self] = true
					}
				}
			}
		}
	}
	ret, _, err := verifExec(st, a, in, 10000000)
	verifsym.Assert(err == nil && len(ret) == 224, "the outer contract goes on")
	for i, w := range want {
		verifsym.Assert(verifEq(verifWordOf(ret, i), w), []string{"outer call succeeds", "inner call succeeds", "ADDRESS", "CALLER", "ORIGIN", "CALLVALUE", "BALANCE"}[i])
	}
	for _, x := range []common.Address{verifA20, verifB21, verifC22} {
		verifsym.Assert(verifEq(st.GetBalance(x, 35760), bal[x]), "balances after the calls")
		verifsym.Assert((st.GetState(x, common.Hash{31: 3}) != common.Hash{}) == stored[x], "whose storage was written")
	}
}

// A call costs what it should, gives the called contract what it asks for but never more than all but a 64th of what is
// left, and what is not used comes back.
//
//verif:harness V27 time=150 ttime=300 paths=50000 reach=out,capped,value,new,reverted,failed
//verif:bounds gas left for the call 0, 127 and all of 5000 to 2^22 that are 0, 1 or 63 modulo 64, or too little gas; any gas argument below 2^22, arguments 2^64-1, 2^64 and 2^256-1; values 0, 1 and one too much; CALL, CALLCODE, DELEGATECALL and STATICCALL of a contract that returns, reverts or fails, of an account without code, of a precompiled contract and of one that does not exist
func VerifH_V27_Gas() {
	kind := []byte{verifCALL, verifCALLCODE, verifDELEGATE, verifSTATIC}[verifsym.Choose("kind", 4)]
	what := verifsym.Choose("callee", 6)
	v := verifZero
	pays := kind == verifCALL || kind == verifCALLCODE
	if pays {
		v = []*big.Int{verifZero, big.NewInt(1), big.NewInt(1001)}[verifsym.Choose("value", 3)]
	}
	q, r := uint64(0), uint64(0)
	switch verifsym.Choose("little", 3) {
	case 1:
		q, r = 1, 63
	case 2:
		q, r = verifsym.U64r("q", 80, 1<<16), []uint64{0, 1, 63}[verifsym.Choose("r", 3)]
	}
	ask := []*big.Int{nil, verifB(63*q + r - 1), verifB(63*q + r), verifB(63*q + r + 1), verifU64, verifAdd(verifU64, big.NewInt(1)), verifU256, verifZero, verifB(16), verifB(17)}[verifsym.Choose("ask", 10)]
	if ask == nil {
		ask = verifsym.Big("gas", verifB(18), verifB(4900))
	}
	in := verifCat(math.PaddedBigBytes(ask, 32), math.PaddedBigBytes(v, 32))
	top := 64*q + r // what is left for the call, and before it
	st := verifState()
	st.AddBalance(verifA20, big.NewInt(1000), 35760)
	to := verifB21
	answer := []byte{0x5a, 0x60, 0, 0x52, 0x60, 32, 0x60, 0}
	switch what {
	case 0:
		st.SetCode(to, append(answer, 0xf3))
	case 1:
		st.SetCode(to, append(answer, 0xfd))
	case 2:
		st.SetCode(to, append(answer, 0xfe))
	case 3:
		st.AddBalance(to, big.NewInt(1), 35760)
	case 4:
		to = common.Address{19: 4} // identity
		st.AddBalance(to, big.NewInt(1), 35760)
	}
	code := verifCat(verifCallOp(kind, to, verifArg(0), verifArg(1), 0, 0, 32), verifPut(1), []byte{0x5a}, verifPut(2), []byte{0x3d}, verifPut(3), verifAnswer(0, 128))

	value := pays && v.Sign() > 0
	before, cost := uint64(12+9), uint64(700+3) // and one word of memory
	if pays {
		before += 6
	}
	if value {
		verifsym.Reach("value")
		cost += 9000
		if kind == verifCALL && what == 5 {
			verifsym.Reach("new")
			cost += 25000
		}
	}
	top += before + cost
	if top == before+cost {
		top -= []uint64{0, 1, 600}[verifsym.Choose("short", 3)] // too little for the call
	}
	left := top
	out := false
	use := func(n uint64) {
		if out || left < n {
			out = true
			left = 0
			return
		}
		left -= n
	}
	use(before)
	use(cost)
	flag, seen, answered := uint64(0), new(big.Int), uint64(0)
	if !out {
		give := left - left/64
		if ask.Cmp(verifB(give)) < 0 {
			give = ask.Uint64()
		} else {
			verifsym.Reach("capped")
		}
		left -= give
		inner := give
		if value {
			inner += 2300
		}
		switch {
		case pays && v.Cmp(big.NewInt(1000)) > 0:
			left += inner
		case what <= 2:
			switch {
			case what == 2 && inner >= 17, inner < 17:
				verifsym.Reach("failed")
				inner = 0
			default:
				seen = verifB(inner - 2)
				answered = 32
				if what == 0 {
					flag = 1
				} else {
					verifsym.Reach("reverted")
				}
				left += inner - 17
			}
		case what == 4:
			if inner < 15 {
				verifsym.Reach("failed")
			} else {
				flag = 1
				left += inner - 15
			}
		default:
			flag = 1
			left += inner
		}
	}
	use(3 + 3 + 3 + 2)
	mid := left
	use(3 + 3 + 3 + 2 + 3 + 3 + 3 + 6)
	ret, got, err := verifExec(st, code, in, top)
	verifsym.Assert((err != nil) == out, "runs out of gas exactly if the specification does")
	verifsym.Assert(got == left, "gas left")
	if out {
		verifsym.Reach("out")
		return
	}
	verifsym.Assert(len(ret) == 128, "an answer")
	verifsym.Assert(verifEq(verifWordOf(ret, 1), verifB(flag)), "success flag")
	verifsym.Assert(verifEq(verifWordOf(ret, 3), verifB(answered)), "RETURNDATASIZE")
	verifsym.Assert(verifEq(verifWordOf(ret, 0), seen), "gas the called contract has")
	verifsym.Assert(verifEq(verifWordOf(ret, 2), verifB(mid)), "gas that came back")
}

// Nothing done inside a static call has an effect, however it is nested; what does something fails there, and only there.
//
//verif:harness V27 time=100 ttime=200 paths=20000 reach=direct,nested
//verif:bounds SSTORE of any key and value, LOG0 to LOG4, CREATE, CREATE2, SELFDESTRUCT, CALL with any value up to 100, in a static call directly or through CALL, CALLCODE, DELEGATECALL or STATICCALL, at once or after another call returned; the same afterwards outside it
func VerifH_V27_Static() {
	op := verifsym.Choose("op", 10)
	via := verifsym.Choose("via", 5)
	in := verifCat(verifsym.WideBytes("x", 32), verifCat(make([]byte, 31), verifsym.Bytes("y", 1)))
	x, y := verifWordOf(in, 0), verifWordOf(in, 1)
	verifsym.Assume(y.Sign() > 0 && y.Cmp(big.NewInt(100)) <= 0)
	st := verifState()
	for _, a := range []common.Address{verifA20, verifB21, verifC22} {
		st.AddBalance(a, big.NewInt(1000), 35760)
	}
	var do []byte
	switch {
	case op == 0:
		do = verifStore(verifArg(0), verifArg(1))
	case op <= 5:
		for i := 0; i < op-1; i++ {
			do = append(do, verifArg(0)...)
		}
		do = verifCat(do, []byte{0x60, 8, 0x60, 0, byte(0xa0 + op - 1)})
	case op == 6:
		do = verifCat([]byte{0x60, 0, 0x60, 0}, verifArg(1), []byte{0xf0, 0x50})
	case op == 7:
		do = verifCat([]byte{0x60, 0, 0x60, 0, 0x60, 0}, verifArg(1), []byte{0xf5, 0x50})
	case op == 8:
		do = verifCat([]byte{0x73}, verifAddrB(0x44), []byte{0xff})
	case op == 9:
		do = verifCat(verifCallOp(verifCALL, verifAddr(0x44), []byte{0x5a}, verifArg(1), 0, 0, 0), []byte{0x50})
	}
	do = verifCat(do, []byte{0x60, 1}, verifPut(0), verifAnswer(0, 32))
	if pre := verifsym.Choose("before", 3); pre > 0 {
		// another call first
		st.SetCode(verifAddr(0x23), []byte{0x5b, 0})
		do = verifCat(verifCallOp([]byte{verifSTATIC, verifDELEGATE}[pre-1], verifAddr(0x23), []byte{0x61, 1, 0}, nil, 0, 0, 0), []byte{0x50}, do)
	}
	load := []byte{0x60, 64, 0x60, 0, 0x60, 0, 0x37}
	gas := []byte{0x62, 0x02, 0, 0}
	if via == 0 {
		st.SetCode(verifB21, do)
	} else {
		kind := []byte{verifCALL, verifCALLCODE, verifDELEGATE, verifSTATIC}[via-1]
		st.SetCode(verifC22, do)
		st.SetCode(verifB21, verifCat(load, verifCallOp(kind, verifC22, gas, []byte{0x60, 0}, 64, 64, 0), verifPut(2), verifAnswer(2, 32)))
	}
	gas = []byte{0x62, 0x08, 0, 0}
	a := verifCat(load, verifCallOp(verifSTATIC, verifB21, gas, nil, 64, 64, 32), verifPut(3), verifAnswer(2, 64))
	ret, _, err := verifExec(st, a, in, 10000000)
	verifsym.Assert(err == nil && len(ret) == 64, "the outer contract goes on")
	if via == 0 {
		verifsym.Reach("direct")
		verifsym.Assert(verifWordOf(ret, 1).Sign() == 0, "it fails in a static call")
	} else {
		verifsym.Reach("nested")
		verifsym.Assert(verifWordOf(ret, 1).Sign() > 0 && verifWordOf(ret, 0).Sign() == 0, "it fails in a call nested in a static call")
	}
	same := func(label string) bool {
		ok := true
		for _, c := range []common.Address{verifA20, verifB21, verifC22} {
			ok = ok && verifEq(st.GetBalance(c, 35760), big.NewInt(1000)) && st.GetNonce(c) == 0 && !st.HasSuicided(c) && st.GetState(c, common.BigToHash(x)) == (common.Hash{})
		}
		return ok && verifEq(st.GetBalance(verifAddr(0x44), 35760), verifZero) && len(st.Logs()) == 0
	}
	verifsym.Assert(same(""), "nothing has changed")
	if via == 0 {
		// the same outside
		a = verifCat(load, verifCallOp(verifSTATIC, verifB21, gas, nil, 64, 64, 32), []byte{0x50}, verifCallOp(verifCALL, verifB21, gas, []byte{0x60, 0}, 64, 64, 32), verifPut(3), verifAnswer(2, 64))
		ret, _, err = verifExec(st, a, in, 10000000)
		verifsym.Assert(err == nil && len(ret) == 64 && verifWordOf(ret, 1).Sign() > 0, "it works after the static call")
		verifsym.Assert(!same(""), "and has an effect")
	}
}

// What a call answers is in the memory it was to go to, no more than asked, and can be copied until the next call; copying
// beyond it fails.
//
//verif:harness V27 time=150 ttime=400 paths=100000 reach=returned,reverted,failed,copied,beyond
//verif:bounds answers of 0, 1, 32 and 70 bytes of any contents returned by a contract or a precompiled one, reverted with or lost in a failure; 0, 31, 33 or 96 bytes of room for them; copies of 0, 1, 32 or 70 bytes or 2^64-1 or 2^256-1 from 0, 1, 38, 70, 2^64 or 2^256-1
func VerifH_V27_ReturnData() {
	kind := []byte{verifCALL, verifCALLCODE, verifDELEGATE, verifSTATIC}[verifsym.Choose("kind", verifsym.Bound("kinds", 2, 4))*1]
	how := verifsym.Choose("how", 4)
	s := []uint64{0, 1, 32, 70}[verifsym.Choose("size", 4)]
	room := []uint64{0, 31, 33, 96}[verifsym.Choose("room", 4)]
	two64 := new(big.Int).Lsh(big.NewInt(1), 64)
	off := []*big.Int{verifB(0), verifB(1), verifB(38), verifB(70), two64, verifU256}[verifsym.Choose("off", 6)]
	n := []*big.Int{verifB(0), verifB(1), verifB(32), verifB(70), verifU64, verifU256}[verifsym.Choose("len", 6)]
	data := verifsym.WideBytes("data", 96)
	st := verifState()
	// B: answers the first s bytes of its input
	b := verifCat([]byte{0x60, 96, 0x60, 0, 0x60, 0, 0x37}, verifPush(s), verifPush(0), []byte{[]byte{0xf3, 0xfd, 0xfe, 0}[how]})
	st.SetCode(verifB21, b)
	to, size := verifB21, uint64(96)
	if how == 3 {
		to, size = common.Address{19: 4}, s // the precompiled contract that answers its input
	}
	// A: input in memory 0..96, 0x11.. in 96..192, the call's output to 96, copy to 192, then the memory 96.. with sizes
	fill := verifPushW(new(big.Int).SetBytes(verifFill(0x11, 32)))
	a := verifCat([]byte{0x60, 96, 0x60, 0, 0x60, 0, 0x37}, fill, verifPut(3), fill, verifPut(4), fill, verifPut(5), fill, verifPut(6), fill, verifPut(7), fill, verifPut(8),
		verifCallOp(kind, to, []byte{0x62, 1, 0, 0}, []byte{0x60, 0}, size, 96, room), verifPut(9), []byte{0x3d}, verifPut(10), fill, verifPut(0), fill, verifPut(1))
	cp := verifCat(verifPushW(n), verifPushW(off), verifPush(192), []byte{0x3e})
	tail := verifCat(verifCallOp(verifCALL, verifAddr(0x66), []byte{0x60, 0}, []byte{0x60, 0}, 0, 0, 0), []byte{0x50, 0x3d}, verifPut(11), verifAnswer(3, 288))
	want := verifCat(verifFill(0x11, 192), make([]byte, 96))
	var answer []byte
	switch how {
	case 0, 3:
		verifsym.Reach("returned")
		answer = data[:s]
		want[192+31] = 1
	case 1:
		verifsym.Reach("reverted")
		answer = data[:s]
	default:
		verifsym.Reach("failed")
	}
	for i := 0; i < len(answer) && i < int(room); i++ {
		want[i] = answer[i]
	}
	want[192+32+31] = byte(len(answer))
	end := verifAdd(off, n)
	if end.Cmp(big.NewInt(int64(len(answer)))) > 0 {
		verifsym.Reach("beyond")
		_, left, err := verifExec(st, verifCat(a, cp, tail), data, 1000000)
		verifsym.Assert(err != nil && left == 0, "copying beyond the answer fails")
		return
	}
	verifsym.Reach("copied")
	for i := 0; i < int(n.Uint64()); i++ {
		want[96+i] = answer[int(off.Uint64())+i]
	}
	ret, _, err := verifExec(st, verifCat(a, cp, tail), data, 1000000)
	verifsym.Assert(err == nil && len(ret) == 288, "it runs")
	for i := range want {
		verifsym.Assert(ret[i] == want[i], "memory after the call and the copy")
	}
}

// verifLong: a word that is 0, small, or uses all of its bytes
func verifLong(name string) *big.Int {
	switch verifsym.Choose(name+"?", 3) {
	case 0:
		return new(big.Int)
	case 1:
		return verifsym.Big(name, verifB(1), verifB(255))
	}
	return verifsym.Big(name, new(big.Int).Lsh(big.NewInt(1), 248), verifU256)
}

func verifFill(b byte, n int) []byte {
	r := make([]byte, n)
	for i := range r {
		r[i] = b
	}
	return r
}

// verifPushCode: code into memory at 0, its length known
func verifMemCode(code []byte) []byte {
	var r []byte
	for i := 0; i < len(code); i += 32 {
		w := make([]byte, 32)
		copy(w, code[i:])
		r = verifCat(r, verifPushW(new(big.Int).SetBytes(w)), verifPut(uint64(i/32)))
	}
	return r
}

// A contract created by a contract is where it belongs, with the code its constructor answers and the value it was given,
// for the gas it costs; otherwise nothing remains but the used nonce.
//
//verif:harness V27 time=150 ttime=400 paths=50000 reach=created,reverted,failed,collision,poor,unpaid
//verif:bounds CREATE and CREATE2 with any salt below 2^64 and any value, with any gas from 32100 to 2^22; constructors that answer 0 or 40 bytes, revert with data, fail; an address already in use
func VerifH_V27_Create() {
	two := verifsym.Choose("two", 2) == 1
	how := verifsym.Choose("how", 4)
	used := verifsym.Choose("used", 3)
	key := uint32(0x10001)
	in := verifsym.WideBytes("value", 32)
	v := verifWordOf(in, 0)
	top := verifsym.U64r("top", 32100, 1<<22)
	salt := []byte{0x67, 1, 2, 3, 4, 5, 6, 7, 8}
	st := verifState()
	st.AddBalance(verifA20, big.NewInt(1000), 35760)
	st.SetNonce(verifA20, 5)
	size := uint64(0)
	end := byte(0xf3)
	run := uint64(3 + 3) // constructor: PUSH PUSH RETURN
	words := uint64(0)
	switch how {
	case 0:
	case 1:
		size, words = 40, 2
	case 2:
		size, words, end = 40, 2, 0xfd
	case 3:
		end = 0xfe
	}
	run += 3 * words
	ctor := []byte{0x60, byte(size), 0x60, 0, end}
	at := verifCreateAddr(verifA20, key, 5)
	if two {
		at = crypto.CreateAddress2(verifA20, common.BigToHash(new(big.Int).SetBytes(salt[1:])), crypto.Keccak256(ctor))
	}
	switch used {
	case 1:
		st.SetNonce(at, 1)
	case 2:
		st.AddBalance(at, big.NewInt(7), 35760)
	}
	code := verifMemCode(ctor)
	if two {
		code = verifCat(code, salt)
	}
	code = verifCat(code, verifPush(uint64(len(ctor))), verifPush(0), verifArg(0))
	if two {
		code = append(code, 0xf5)
	} else {
		code = append(code, 0xf0)
	}
	code = verifCat(code, verifPut(0), []byte{0x3d}, verifPut(1), []byte{0x5a}, verifPut(2), verifAnswer(0, 96))

	left := top
	out := false
	use := func(n uint64) {
		if out || left < n {
			out = true
			left = 0
			return
		}
		left -= n
	}
	use(3 + 3 + 3 + 3) // the constructor into memory, one word
	use(3 + 3 + 6)
	if two {
		use(3 + 6)
	}
	use(32000)
	made, nonce, answered := false, uint64(5), uint64(0)
	if !out {
		give := left - left/64
		left -= give
		inner := give
		switch {
		case v.Cmp(big.NewInt(1000)) > 0:
			verifsym.Reach("poor")
			left += inner
		case used == 1:
			verifsym.Reach("collision")
			nonce = 6
		case how == 3:
			verifsym.Reach("failed")
			nonce = 6
		case how == 2:
			nonce = 6
			if inner >= run {
				verifsym.Reach("reverted")
				left += inner - run
				answered = 40
			}
		default:
			nonce = 6
			if inner >= run+200*size {
				verifsym.Reach("created")
				left += inner - run - 200*size
				made = true
			} else {
				verifsym.Reach("unpaid")
			}
		}
	}
	use(3 + 3)
	use(2 + 3 + 3 + 3)
	use(2)
	mid := left
	use(3 + 3 + 3)
	use(3 + 3)
	k := key
	e := verifEVM(st)
	e.ToFullShardKey = &k
	st.SetCode(verifA20, code)
	ret, got, err := e.Call(vm.AccountRef(verifAddr(1)), verifA20, in, top, new(big.Int))
	verifsym.Assert((err != nil) == out, "runs out of gas exactly if the specification does")
	verifsym.Assert(got == left, "gas left")
	before := uint64(0)
	if used == 2 {
		before = 7
	}
	if out {
		verifsym.Assert(st.GetNonce(verifA20) == 5 && verifEq(st.GetBalance(at, 35760), verifB(before)) && len(st.GetCode(at)) == 0, "nothing remains")
		return
	}
	verifsym.Assert(len(ret) == 96, "an answer")
	verifsym.Assert(verifEq(verifWordOf(ret, 1), verifB(answered)), "RETURNDATASIZE")
	verifsym.Assert(verifEq(verifWordOf(ret, 2), verifB(mid)), "gas that came back")
	verifsym.Assert(st.GetNonce(verifA20) == nonce, "nonce of the creator")
	if made {
		verifsym.Assert(verifEq(verifWordOf(ret, 0), new(big.Int).SetBytes(at[:])), "address of the contract")
		verifsym.Assert(uint64(len(st.GetCode(at))) == size, "its code")
		verifsym.Assert(st.GetNonce(at) == 1, "its nonce")
		verifsym.Assert(verifEq(st.GetBalance(at, 35760), verifAdd(v, verifB(before))), "its value")
		verifsym.Assert(verifEq(st.GetBalance(verifA20, 35760), verifSub(big.NewInt(1000), v)), "value paid")
		if size > 0 {
			verifsym.Assert(string(st.GetCode(at)[:5]) == "\x00\x00\x00\x00\x00", "contents of its code")
		}
		return
	}
	verifsym.Assert(verifWordOf(ret, 0).Sign() == 0, "no contract")
	verifsym.Assert(len(st.GetCode(at)) == 0 && verifEq(st.GetBalance(at, 35760), verifB(before)) && verifEq(st.GetBalance(verifA20, 35760), big.NewInt(1000)), "no trace of the contract")
	verifsym.Assert(st.GetNonce(at) == map[int]uint64{1: 1}[used], "nonce at the address")
}

// verifCreateAddr: last 20 bytes of the hash of [creator, full shard key, nonce]
func verifCreateAddr(a common.Address, key uint32, nonce uint64) common.Address {
	k := key
	return vm.CreateAddress(a, &k, nonce)
}


// Writing storage costs 20000 for a new slot and 5000 for a used one, and clearing one refunds 15000; reading gives back
// what was written last.
//
//verif:harness V27 time=60 ttime=100 paths=20000 reach=set,reset,clear,clean
//verif:bounds two writes to the same or to different slots, and a read; words before and written 0, 1 to 255 or all above 2^248; enough gas or one too little
func VerifH_V27_Storage() {
	same := verifsym.Choose("same", 2) == 1
	short := verifsym.Choose("short", 2) == 1
	x, y := verifLong("x"), verifLong("y")
	in := verifCat(math.PaddedBigBytes(x, 32), math.PaddedBigBytes(y, 32))
	was := math.PaddedBigBytes(verifLong("was"), 32)
	k1, k2 := byte(3), byte(4)
	if same {
		k2 = 3
	}
	st := verifState()
	st.SetCode(verifA20, []byte{1})
	for i := 3; i <= 4; i++ {
		st.SetState(verifA20, common.Hash{31: byte(i)}, common.BytesToHash(was))
	}
	code := verifCat(verifStore([]byte{0x60, k1}, verifArg(0)), verifStore([]byte{0x60, k2}, verifArg(1)), []byte{0x60, 3, 0x54}, verifPut(0), verifAnswer(0, 32))
	cost, refund := uint64(9+9+3+200+3+3+3+3+3), uint64(0)
	write := func(old, new *big.Int) {
		switch {
		case old.Sign() == 0 && new.Sign() != 0:
			verifsym.Reach("set")
			cost += 20000
		case old.Sign() != 0 && new.Sign() == 0:
			verifsym.Reach("clear")
			cost += 5000
			refund += 15000
		case old.Sign() == 0:
			verifsym.Reach("clean")
			cost += 5000
		default:
			verifsym.Reach("reset")
			cost += 5000
		}
	}
	before := new(big.Int).SetBytes(was)
	write(before, x)
	three, four := x, y
	if same {
		write(x, y)
		three, four = y, before
	} else {
		write(before, y)
	}
	if short {
		cost--
	}
	ret, left, err := verifExec(st, code, in, cost)
	if short {
		verifsym.Assert(err != nil && left == 0, "too little gas")
		verifsym.Assert(verifEq(st.GetState(verifA20, common.Hash{31: 3}).Big(), before) && verifEq(st.GetState(verifA20, common.Hash{31: 4}).Big(), before) && st.GetRefund() == 0, "nothing written")
		return
	}
	verifsym.Assert(err == nil && left == 0 && len(ret) == 32, "costs exactly as specified")
	verifsym.Assert(verifEq(verifWordOf(ret, 0), three), "reads what was written")
	verifsym.Assert(st.GetRefund() == refund, "refund")
	verifsym.Assert(verifEq(st.GetState(verifA20, common.Hash{31: 3}).Big(), three) && verifEq(st.GetState(verifA20, common.Hash{31: 4}).Big(), four), "storage afterwards")
}

// What a contract asks about the block, the transaction and other accounts is answered truly and at its price.
//
//verif:harness V27 time=60 ttime=100 paths=20000 reach=block,account,hash,nohash
//verif:bounds each asked twice: ADDRESS, CALLER, CALLVALUE, GASPRICE, COINBASE, TIMESTAMP, NUMBER, DIFFICULTY, GASLIMIT; BALANCE, EXTCODESIZE and EXTCODEHASH of an account that does not exist, has any positive balance, or code; BLOCKHASH of any 256-bit number at heights 7, 256, 257 and 1000
func VerifH_V27_Environment() {
	st := verifState()
	st.AddBalance(verifAddr(1), big.NewInt(1000), 35760)
	e := verifEVM(st)
	word := func(code []byte, in []byte, gas uint64) *big.Int {
		// asked twice, the first answer being changed on the stack
		st.SetCode(verifA20, verifCat(code, []byte{0x19, 0x50}, code, verifRet32))
		ret, left, err := e.Call(vm.AccountRef(verifAddr(1)), verifA20, in, 20000, big.NewInt(77))
		verifsym.Assert(err == nil && len(ret) == 32, "it runs")
		verifsym.Assert(20000-left == 2*gas+5+15, "gas of the instruction")
		return verifWordOf(ret, 0)
	}
	switch verifsym.Choose("ask", 3) {
	case 0:
		verifsym.Reach("block")
		e.GasPrice = verifsym.Big("price", verifB(1<<32), verifB(1<<62))
		e.Time = verifsym.Big("time", verifB(1<<32), verifB(1<<40))
		e.Difficulty = verifsym.Big("diff", verifB(1<<32), verifB(1<<62))
		e.GasLimit = verifsym.U64r("limit", 1<<20, 1<<30)
		verifsym.Assert(verifEq(word([]byte{0x3a}, nil, 2), e.GasPrice), "GASPRICE")
		verifsym.Assert(verifEq(word([]byte{0x41}, nil, 2), new(big.Int).SetBytes(verifAddrB(5))), "COINBASE")
		verifsym.Assert(verifEq(word([]byte{0x42}, nil, 2), e.Time), "TIMESTAMP")
		verifsym.Assert(verifEq(word([]byte{0x43}, nil, 2), big.NewInt(7)), "NUMBER")
		verifsym.Assert(verifEq(word([]byte{0x44}, nil, 2), e.Difficulty), "DIFFICULTY")
		verifsym.Assert(verifEq(word([]byte{0x45}, nil, 2), verifB(e.GasLimit)), "GASLIMIT")
		verifsym.Assert(verifEq(word([]byte{0x32}, nil, 2), new(big.Int).SetBytes(verifAddrB(1))), "ORIGIN")
		verifsym.Assert(verifEq(word([]byte{0x33}, nil, 2), new(big.Int).SetBytes(verifAddrB(1))), "CALLER")
		verifsym.Assert(verifEq(word([]byte{0x30}, nil, 2), new(big.Int).SetBytes(verifA20[:])), "ADDRESS")
		verifsym.Assert(verifEq(word([]byte{0x34}, nil, 2), big.NewInt(77)), "CALLVALUE")
	case 1:
		verifsym.Reach("account")
		balance, size, hash := new(big.Int), int64(0), new(big.Int)
		switch verifsym.Choose("account", 4) {
		case 1:
			balance = verifsym.Big("bal", verifB(1), verifU128)
			st.AddBalance(verifB21, balance, 35760)
			hash.SetBytes(crypto.Keccak256())
		case 2:
			st.SetCode(verifB21, []byte{1, 2, 3})
			size = 3
			hash.SetBytes(crypto.Keccak256([]byte{1, 2, 3}))
		case 3:
			st.SetNonce(verifB21, 1)
			hash.SetBytes(crypto.Keccak256())
		}
		// bytes above the address do not count
		at := verifCat([]byte{0x73}, verifB21[:])
		if verifsym.Choose("dirty", 2) == 1 {
			at = verifPushW(verifAdd(new(big.Int).SetBytes(verifB21[:]), new(big.Int).Lsh(big.NewInt(5), 160)))
		}
		verifsym.Assert(verifEq(word(append(verifCat(at), 0x31), nil, 403), balance), "BALANCE")
		verifsym.Assert(verifEq(word(append(verifCat(at), 0x3b), nil, 703), big.NewInt(size)), "EXTCODESIZE")
		verifsym.Assert(verifEq(word(append(verifCat(at), 0x3f), nil, 403), hash), "EXTCODEHASH")
	default:
		in := verifsym.WideBytes("n", 32)
		n := verifWordOf(in, 0)
		now := []int64{7, 256, 257, 1000}[verifsym.Choose("now", 4)]
		e.BlockNumber = big.NewInt(now)
		asked := int64(-1)
		e.GetHash = func(n uint64) common.Hash {
			asked = int64(n)
			return common.Hash{0xb1, byte(n)}
		}
		low := now - 256
		if low < 0 {
			low = 0
		}
		got := word(append(verifArg(0), 0x40), in, 26)
		if n.Cmp(big.NewInt(low)) < 0 || n.Cmp(big.NewInt(now)) >= 0 {
			verifsym.Reach("nohash")
			verifsym.Assert(got.Sign() == 0 && asked == -1, "BLOCKHASH out of range")
			return
		}
		verifsym.Reach("hash")
		verifsym.Assert(n.IsInt64() && asked == n.Int64() && verifEq(new(big.Int).Rsh(got, 248), big.NewInt(0xb1)), "BLOCKHASH")
	}
}

// Hashes and logs cost what they should, and a log holds the topics and bytes it was made of.
//
//verif:harness V27 time=60 ttime=100 paths=20000 reach=log,hash,short
//verif:bounds LOG0 to LOG4 with topics 0, 1 to 255 or all above 2^248, and SHA3, over 0, 1, 32 or 45 bytes of any contents at memory 0 or 70; enough gas or one too little
func VerifH_V27_Logs() {
	op := []byte{0xa0, 0xa1, 0xa2, 0xa3, 0xa4, 0x20}[verifsym.Choose("op", 6)]
	size := []uint64{0, 1, 32, 45}[verifsym.Choose("size", 4)]
	off := []uint64{0, 70}[verifsym.Choose("off", 2)]
	short := verifsym.Choose("short", 2) == 1
	in := verifCat(math.PaddedBigBytes(verifLong("t1"), 32), math.PaddedBigBytes(verifLong("t2"), 32), verifsym.WideBytes("d1", 32), verifsym.WideBytes("d2", 32))
	st := verifState()
	words := func(n uint64) uint64 { return (n + 31) / 32 }
	// input into memory 0..128, then the instruction
	code := []byte{0x60, 128, 0x60, 0, 0x60, 0, 0x37}
	cost := uint64(3*3 + 3 + 4*3 + 4*3)
	topics := 0
	if op != 0x20 {
		topics = int(op - 0xa0)
	}
	for i := 0; i < topics; i++ {
		code = verifCat(code, verifArg(uint64(i%2)))
		cost += 6
	}
	code = verifCat(code, verifPush(size), verifPush(off), []byte{op})
	cost += 6
	if op == 0x20 {
		cost += 30 + 6*words(size) + 3 + 3 + 3 + 3 // and its answer
		code = verifCat(code, verifPut(0), verifAnswer(0, 32))
	} else {
		cost += 375 + 375*uint64(topics) + 8*size
		// the memory changes afterwards
		code = verifCat(code, []byte{0x60, 128, 0x60, 128, 0x60, 0, 0x37})
		cost += 3*3 + 3 + 4*3
	}
	if short {
		verifsym.Reach("short")
		_, left, err := verifExec(st, code, in, cost-1)
		verifsym.Assert(err != nil && left == 0 && len(st.Logs()) == 0, "too little gas")
		return
	}
	ret, left, err := verifExec(st, code, in, cost)
	verifsym.Assert(err == nil && left == 0, "costs exactly as specified")
	mem := in[off : off+size]
	if op == 0x20 {
		verifsym.Reach("hash")
		verifsym.Assert(len(ret) == 32 && common.BytesToHash(ret) == crypto.Keccak256Hash(mem), "SHA3")
		return
	}
	verifsym.Reach("log")
	logs := st.Logs()
	verifsym.Assert(len(logs) == 1 && logs[0].Recipient == verifA20 && len(logs[0].Topics) == topics && len(logs[0].Data) == int(size), "one log")
	for i, t := range logs[0].Topics {
		j := 32 * ((topics - 1 - i) % 2)
		verifsym.Assert(t == common.BytesToHash(in[j:j+32]), "topic of a log")
	}
	for i := range mem {
		verifsym.Assert(logs[0].Data[i] == mem[i], "data of a log")
	}
}

// Calls nest 1024 deep and no deeper, whatever kind they are of and however much gas there is.
//
//verif:harness V27 time=100 ttime=200 paths=100 steps=100000000 qtime=1 reach=deep
//verif:bounds a contract that calls itself by CALL, CALLCODE or DELEGATECALL, with value or without, counting in storage from any word between 2^200 and 2^200+2^100
func VerifH_V27_Depth() {
	kind := []byte{verifCALL, verifCALLCODE, verifDELEGATE}[verifsym.Choose("kind", 3)]
	v := verifB(uint64(verifsym.Choose("v", 2)))
	s0, s1 := verifDeep("s0"), verifDeep("s1")
	st := verifState()
	st.AddBalance(verifA20, big.NewInt(1000), 35760)
	st.SetCode(verifA20, []byte{1})
	st.SetState(verifA20, common.Hash{}, common.BigToHash(s0))
	st.SetState(verifA20, common.Hash{31: 1}, common.BigToHash(s1))
	// S[0]++ ; if the call (of itself) fails S[1]++
	inc := func(k byte) []byte { return []byte{0x60, k, 0x54, 0x60, 1, 0x01, 0x60, k, 0x55} }
	code := verifCat([]byte{0x60, 32, 0x60, 0, 0x60, 0, 0x37}, inc(0), verifCallOp(kind, verifA20, []byte{0x5a}, verifArg(0), 32, 0, 0))
	n := uint64(len(code)) + 4
	code = verifCat(code, verifPush(n+9), []byte{0x57}, inc(1), []byte{0x5b, 0})
	verifsym.Assert(code[n+9] == 0x5b, "the code is as meant")
	_, _, err := verifExec(st, code, math.PaddedBigBytes(v, 32), 1<<60)
	verifsym.Reach("deep")
	verifsym.Assert(err == nil, "it runs")
	verifsym.Assert(verifEq(st.GetState(verifA20, common.Hash{}).Big(), verifAdd(s0, big.NewInt(1025))), "calls nest 1024 deep")
	verifsym.Assert(verifEq(st.GetState(verifA20, common.Hash{31: 1}).Big(), verifAdd(s1, big.NewInt(1))), "the next call fails, alone")
}

func verifDeep(name string) *big.Int {
	lo := new(big.Int).Lsh(big.NewInt(1), 200)
	return verifsym.Big(name, lo, verifAdd(lo, new(big.Int).Lsh(big.NewInt(1), 100)))
}

// Each contract jumps by its own code, whatever code called it or ran before.
//
//verif:harness V27 time=60 ttime=100 paths=5000 reach=went,refused
//verif:bounds a contract that jumps, then calls (by each kind of call) or creates (CREATE, CREATE2) one whose jump destinations are elsewhere, which jumps to 0 to 40 or anywhere from 1000 to 2^256-1; then jumps again
func VerifH_V27_Jumps() {
	how := verifsym.Choose("how", 6)
	d := verifsym.Big("to", verifZero, big.NewInt(40))
	if verifsym.Choose("far", 2) == 1 {
		d = verifsym.Big("far to", big.NewInt(1000), verifU256)
	}
	in := math.PaddedBigBytes(d, 32)
	// JUMPDEST at 12 and 20; as data at 13
	inner := verifCat([]byte{0x60, 0, 0x35, 0x56}, verifFill(0, 8), []byte{0x5b, 0x60, 0x5b, 0x50, 0, 0, 0, 0, 0x5b, 0x60, 0, 0x60, 0, 0xf3})
	if how >= 4 {
		// constructors have no input
		d = big.NewInt(int64(verifsym.Choose("at", 24)))
		inner = verifCat([]byte{0x60, byte(d.Uint64()), 0x56, 0}, verifFill(0, 8), []byte{0x5b, 0x60, 0x5b, 0x50, 0, 0, 0, 0, 0x5b, 0x60, 0, 0x60, 0, 0xf3})
	}
	verifsym.Assert(inner[12] == 0x5b && inner[14] == 0x5b && inner[20] == 0x5b, "the code is as meant")
	// outer: jumps to 14 over data, later to its end
	outer := verifCat([]byte{0x60, 14, 0x56}, verifFill(0xfe, 11), []byte{0x5b}, []byte{0x60, 32, 0x60, 0, 0x60, 0, 0x37})
	switch how {
	case 0, 1, 2, 3:
		outer = verifCat(outer, verifCallOp([]byte{verifCALL, verifCALLCODE, verifDELEGATE, verifSTATIC}[how], verifB21, []byte{0x62, 1, 0, 0}, []byte{0x60, 0}, 32, 64, 0), verifPut(3))
	case 4:
		outer = verifCat(outer, verifMemCode(inner), verifPush(uint64(len(inner))), []byte{0x60, 0, 0x60, 0, 0xf0, 0x15, 0x15}, verifPut(3))
	case 5:
		outer = verifCat(outer, verifMemCode(inner), []byte{0x60, 1}, verifPush(uint64(len(inner))), []byte{0x60, 0, 0x60, 0, 0xf5, 0x15, 0x15}, verifPut(3))
	}
	n := uint64(len(outer))
	outer = verifCat(outer, verifPush(n+6), []byte{0x56, 0x60, 0x5b}, verifAnswerAt(3))
	outer[n+5] = 0xfe
	outer[n+4] = 0xfe
	st := verifState()
	st.SetCode(verifB21, inner)
	key := uint32(0)
	e := verifEVM(st)
	e.ToFullShardKey = &key
	st.SetCode(verifA20, outer)
	ret, _, err := e.Call(vm.AccountRef(verifAddr(1)), verifA20, in, 1000000, new(big.Int))
	verifsym.Assert(err == nil && len(ret) == 32, "the outer contract goes on")
	ok := d.Cmp(big.NewInt(12)) == 0 || d.Cmp(big.NewInt(20)) == 0
	if ok {
		verifsym.Reach("went")
	} else {
		verifsym.Reach("refused")
	}
	verifsym.Assert((verifWordOf(ret, 0).Sign() > 0) == ok, "the inner contract jumps by its own code")
}

func verifAnswerAt(i uint64) []byte { return append([]byte{0x5b}, verifAnswer(i, 32)...) }
