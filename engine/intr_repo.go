package main

import "go/types"

// Environment stand-ins for repository helpers that reach the OS or gob.

const qkc = "github.com/QuarkChain/goquarkchain/"

// gobCopy deep-copies src the way encoding/gob would (exported fields only).
func (w *W) gobCopy(t types.Type, v Value, d int) Value {
	if d > 16 {
		w.unsup("gob copy too deep")
	}
	switch u := under(t).(type) {
	case *types.Pointer:
		if v.p == nil {
			return v
		}
		nv := w.gobCopy(u.Elem(), *v.ptr(), d+1)
		return Value{p: &nv}
	case *types.Slice:
		if len(v.slice()) == 0 {
			return Value{}
		}
		r := make([]Value, len(v.slice()))
		for i := range r {
			r[i] = w.gobCopy(u.Elem(), v.slice()[i], d+1)
		}
		return Value{p: &SliceV{r}}
	case *types.Array:
		a := &Agg{f: make([]Value, len(v.agg().f))}
		for i := range a.f {
			a.f[i] = w.gobCopy(u.Elem(), v.agg().f[i], d+1)
		}
		return Value{p: a}
	case *types.Struct:
		if isBigInt(t) {
			return copyVal(v)
		}
		a := &Agg{f: make([]Value, len(v.agg().f))}
		for i := range a.f {
			f := u.Field(i)
			if !f.Exported() {
				a.f[i] = zeroValue(f.Type())
				continue
			}
			a.f[i] = w.gobCopy(f.Type(), v.agg().f[i], d+1)
		}
		return Value{p: a}
	case *types.Map:
		m, _ := v.p.(*MapV)
		if m == nil {
			return Value{}
		}
		n := newMap(u)
		for _, e := range m.ents {
			if !e.dead {
				w.mapSet(n, w.gobCopy(m.keyT, e.k, d+1), w.gobCopy(m.elemT, e.v, d+1))
			}
		}
		return Value{p: n}
	case *types.Chan, *types.Signature:
		return Value{}
	case *types.Interface:
		w.unsup("gob copy of interface")
	}
	return v
}

func init() {
	I(qkc+"common.DeepCopy", func(fr *frame, w *W, a []Value) Value {
		dst, src := a[0].iface(), a[1].iface()
		t := src.t
		v := src.v
		if p, ok := under(t).(*types.Pointer); ok {
			t = p.Elem()
			v = *v.ptr()
		}
		// gob transmits non-zero fields only; destinations are zero here
		w.set(dst.v.ptr(), w.gobCopy(t, v, 0))
		return Value{}
	})
	I(qkc+"core/rawdb.WriteChainConfig", noopI)
	// the trie clean-node cache is modelled as absent (trie reads go to the database)
	I("github.com/allegro/bigcache.NewBigCache", func(fr *frame, w *W, a []Value) Value { return tup(Value{}, Value{}) })
	// event feeds: subscriptions fire only where the harness asks for it (verifsym.Feeds)
	ev := ethp + "event"
	I("(*"+ev+".Feed).Subscribe", func(fr *frame, w *W, a []Value) Value {
		if w.feeds == nil {
			w.feeds = map[*Value][]Value{}
		}
		if i := a[1].iface(); i != nil {
			w.feeds[a[0].ptr()] = append(w.feeds[a[0].ptr()], i.v)
		}
		t := w.eng.namedType(ev, "feedSub")
		v := zeroValue(t)
		st := under(t).(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "err" {
				v.agg().f[i] = Value{p: &ChanV{cap: 1}}
			}
		}
		return Value{p: &IfaceV{ptrType((t)), Value{p: &v}}}
	})
	I("(*"+ev+".Feed).Send", func(fr *frame, w *W, a []Value) Value {

		if w.feedsOn {
			for _, ch := range w.feeds[a[0].ptr()] {
				w.chanSendV(fr, ch, a[1].iface().v)
			}
		}
		return Value{}
	})
	I(qkc+"verifsym.Feeds", func(fr *frame, w *W, a []Value) Value { w.feedsOn = true; return Value{} })
	I("(*"+ev+".feedSub).Unsubscribe", noopI)
	// verifsym.OpaqueTxHash: transaction hashes become distinct constants (the
	// encoding that is hashed is the subject of its own property)
	for _, n := range []string{"Transaction", "EvmTransaction"} {
		full := "(*" + qkc + "core/types." + n + ").Hash"
		I(full, func(fr *frame, w *W, a []Value) Value {
			if !w.opaqueTx || a[0].p == nil {
				return w.interpBody(fr, full, a)
			}
			p := a[0].ptr()
			if n == "Transaction" {
				if q := p.agg().f[1].ptr(); q != nil {
					p = q
				}
			}
			id, ok := w.opaqueIDs[p]
			if !ok {
				id = len(w.opaqueIDs) + 1
				w.opaqueIDs[p] = id
			}
			h := keccakSum([]byte{0x7c, byte(id), byte(id >> 8)}, 32, 1)
			return Value{p: &Agg{f: bytesToVals(h)}}
		})
	}
	I(qkc+"verifsym.OpaqueTxHash", func(fr *frame, w *W, a []Value) Value { w.opaqueTx = true; w.opaqueIDs = map[*Value]int{}; return Value{} })
	I(qkc+"common.GetIPV4Addr", func(fr *frame, w *W, a []Value) Value { return tup(strV("127.0.0.1"), Value{}) })
}
