package ser

//verif:common

import (
	"bytes"
	"math/big"
	"reflect"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/serialize"
	"github.com/QuarkChain/goquarkchain/verifsym"
)

var (
	tBig    = reflect.TypeOf(&big.Int{})
	tU256   = reflect.TypeOf(serialize.Uint256{})
	tU128   = reflect.TypeOf(serialize.Uint128{})
	tTok    = reflect.TypeOf(&types.TokenBalances{})
	tTx     = reflect.TypeOf(&types.Transaction{})
	tMinor  = reflect.TypeOf(&types.MinorBlock{})
	tRoot   = reflect.TypeOf(&types.RootBlock{})
	tRcpt   = reflect.TypeOf(&types.Receipt{})
	tBranch = reflect.TypeOf(account.Branch{})
)

// mode fixes the shape (list lengths, byte-lengths of big numbers, absent optionals);
// everything inside that shape is symbolic.
type mode struct {
	n    int  // list length
	blen uint // byte length of big numbers (0: zero)
	opt  bool // optionals present
	zero bool // contents left at zero
	long bool // one level of lists of 300 (concrete, zero) elements
}

func (m mode) big(p string) *big.Int {
	if m.blen == 0 {
		return new(big.Int)
	}
	lo := new(big.Int).Lsh(big.NewInt(1), 8*m.blen-8)
	hi := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 8*m.blen), big.NewInt(1))
	return verifsym.Big(p, lo, hi)
}

func fixed(p string, bits uint) *big.Int {
	return verifsym.Big(p, new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), bits), big.NewInt(1)))
}

func (m mode) tok(p string) *types.TokenBalances {
	t := types.NewEmptyTokenBalances()
	if m.blen == 0 {
		return t
	}
	for i := 0; i < m.n; i++ {
		t.SetValue(m.big(p+"amt"), 1000+uint64(i)*70000)
	}
	return t
}

func (m mode) fill(v reflect.Value, nilok bool, p string) {
	t := v.Type()
	if m.long && v.Kind() == reflect.Slice {
		n := 300
		if p == "Topics" || p == "ID" || p == "PostState" {
			n = 200
		}
		v.Set(reflect.MakeSlice(t, n, n))
		for i := 0; i < n && t.Elem().Kind() != reflect.Uint8; i++ {
			mode{opt: true, zero: true}.fill(v.Index(i), false, "")
		}
		return
	}
	switch t {
	case tBig:
		v.Set(reflect.ValueOf(m.big(p)))
		return
	case tTok:
		v.Set(reflect.ValueOf(m.tok(p)))
		return
	case tU256:
		v.Set(reflect.ValueOf(serialize.Uint256{Value: m.big(p)}))
		return
	case tU128:
		if m.blen > 16 {
			m.blen = 16
		}
		v.Set(reflect.ValueOf(serialize.Uint128{Value: m.big(p)}))
		return
	case tTx:
		if m.zero {
			v.Set(reflect.ValueOf(types.VerifPlainTx()))
			return
		}
		v.Set(reflect.ValueOf(&types.Transaction{TxType: types.EvmTx, EvmTx: types.VerifWireTx(p, m.n)}))
		return
	case tMinor:
		if nilok && !m.opt {
			return
		}
		h, mt := &types.MinorBlockHeader{}, &types.MinorBlockMeta{}
		m.fill(reflect.ValueOf(h).Elem(), false, p+"h")
		m.fill(reflect.ValueOf(mt).Elem(), false, p+"m")
		var txs types.Transactions
		if m.long {
			m.n = 300
		}
		for i := 0; i < m.n; i++ {
			if m.long {
				txs = append(txs, types.VerifPlainTx())
				continue
			}
			txs = append(txs, &types.Transaction{TxType: types.EvmTx, EvmTx: types.VerifWireTx(p, m.n)})
		}
		v.Set(reflect.ValueOf(types.NewMinorBlockWithHeader(h, mt).WithBody(txs, verifsym.Bytes(p+"td", m.n))))
		return
	case tRoot:
		if nilok && !m.opt {
			return
		}
		h := &types.RootBlockHeader{}
		m.fill(reflect.ValueOf(h).Elem(), false, p+"h")
		var l types.MinorBlockHeaders
		if m.long {
			m.n = 300
		}
		for i := 0; i < m.n; i++ {
			x := &types.MinorBlockHeader{}
			if m.long {
				mode{opt: true, zero: true}.fill(reflect.ValueOf(x).Elem(), false, "")
				l = append(l, x)
				continue
			}
			m.fill(reflect.ValueOf(x).Elem(), false, p+"x")
			l = append(l, x)
		}
		v.Set(reflect.ValueOf(types.NewRootBlockWithHeader(h).WithBody(l, verifsym.Bytes(p+"td", m.n))))
		return
	case tRcpt:
		if nilok && !m.opt {
			return
		}
		r := &types.Receipt{}
		m.fill(reflect.ValueOf(r).Elem(), false, p+"r")
		r.PostState = nil
		r.GasUsed = verifsym.U64r(p+"gasused", 0, 1<<32)
		r.CumulativeGasUsed = verifsym.U64r(p+"cumulative", 1<<32, 1<<48)
		r.Status = uint64(m.n & 1)
		v.Set(reflect.ValueOf(r))
		return
	}
	if m.zero && v.Kind() != reflect.Ptr && v.Kind() != reflect.Struct {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if nilok && !m.opt {
			return
		}
		e := reflect.New(t.Elem())
		m.fill(e.Elem(), false, p)
		v.Set(e)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" || f.Tag.Get("ser") == "-" {
				continue
			}
			m.fill(v.Field(i), f.Tag.Get("ser") == "nil", p+f.Name)
		}
	case reflect.Uint8:
		v.SetUint(uint64(verifsym.U8(p)))
	case reflect.Uint16:
		v.SetUint(uint64(verifsym.U16(p)))
	case reflect.Uint32:
		v.SetUint(uint64(verifsym.U32(p)))
	case reflect.Uint64:
		v.SetUint(verifsym.U64(p))
	case reflect.Bool:
		v.SetBool(m.opt)
	case reflect.String:
		v.SetString(string(verifsym.Bytes(p, m.n)))
	case reflect.Array:
		reflect.Copy(v, reflect.ValueOf(verifsym.WideBytes(p, v.Len())))
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			v.SetBytes(verifsym.Bytes(p, m.n))
			return
		}
		s := reflect.MakeSlice(t, m.n, m.n)
		for i := 0; i < m.n; i++ {
			m.fill(s.Index(i), false, p)
		}
		v.Set(s)
	default:
		panic("fill " + p)
	}
}

func same(a, b reflect.Value, p string) {
	t := a.Type()
	switch t {
	case tBig:
		verifsym.Assert(a.Interface().(*big.Int).Cmp(b.Interface().(*big.Int)) == 0, p)
		return
	case tU256:
		verifsym.Assert(a.Interface().(serialize.Uint256).Value.Cmp(b.Interface().(serialize.Uint256).Value) == 0, p)
		return
	case tU128:
		verifsym.Assert(a.Interface().(serialize.Uint128).Value.Cmp(b.Interface().(serialize.Uint128).Value) == 0, p)
		return
	case tTok:
		x, y := a.Interface().(*types.TokenBalances).GetBalanceMap(), b.Interface().(*types.TokenBalances).GetBalanceMap()
		verifsym.Assert(len(x) == len(y), p)
		for i := 0; i < len(x); i++ {
			k := 1000 + uint64(i)*70000
			verifsym.Assert(x[k] != nil && y[k] != nil && x[k].Cmp(y[k]) == 0, p)
		}
		return
	case tTx:
		x, y := a.Interface().(*types.Transaction), b.Interface().(*types.Transaction)
		verifsym.Assert(x.TxType == y.TxType, p)
		types.VerifSameTx(x.EvmTx, y.EvmTx, p)
		return
	}
	if t.Kind() == reflect.Ptr {
		verifsym.Assert(a.IsNil() == b.IsNil(), p)
		if a.IsNil() {
			return
		}
		switch t {
		case tMinor:
			x, y := a.Interface().(*types.MinorBlock), b.Interface().(*types.MinorBlock)
			same(reflect.ValueOf(x.Header()), reflect.ValueOf(y.Header()), p)
			same(reflect.ValueOf(x.Meta()), reflect.ValueOf(y.Meta()), p)
			same(reflect.ValueOf([]*types.Transaction(x.Transactions())), reflect.ValueOf([]*types.Transaction(y.Transactions())), p)
			verifsym.Assert(bytes.Equal(x.TrackingData(), y.TrackingData()), p)
			return
		case tRoot:
			x, y := a.Interface().(*types.RootBlock), b.Interface().(*types.RootBlock)
			same(reflect.ValueOf(x.Header()), reflect.ValueOf(y.Header()), p)
			same(reflect.ValueOf([]*types.MinorBlockHeader(x.MinorBlockHeaders())), reflect.ValueOf([]*types.MinorBlockHeader(y.MinorBlockHeaders())), p)
			verifsym.Assert(bytes.Equal(x.TrackingData(), y.TrackingData()), p)
			return
		}
		same(a.Elem(), b.Elem(), p)
		return
	}
	switch t.Kind() {
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" || f.Tag.Get("ser") == "-" {
				continue
			}
			same(a.Field(i), b.Field(i), p+"."+f.Name)
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		verifsym.Assert(a.Uint() == b.Uint(), p)
	case reflect.Bool:
		verifsym.Assert(a.Bool() == b.Bool(), p)
	case reflect.String:
		verifsym.Assert(a.String() == b.String(), p)
	case reflect.Slice, reflect.Array:
		verifsym.Assert(a.Len() == b.Len(), p)
		if t.Elem().Kind() == reflect.Uint8 {
			x, y := make([]byte, a.Len()), make([]byte, a.Len())
			reflect.Copy(reflect.ValueOf(x), a)
			reflect.Copy(reflect.ValueOf(y), b)
			verifsym.Assert(bytes.Equal(x, y), p)
			return
		}
		for i := 0; i < a.Len(); i++ {
			same(a.Index(i), b.Index(i), p)
		}
	default:
		panic("same " + p)
	}
}

