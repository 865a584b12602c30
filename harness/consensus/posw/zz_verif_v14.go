package posw

import (
	"math/big"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/serialize"
	"github.com/QuarkChain/goquarkchain/verifsym"
	"github.com/ethereum/go-ethereum/common"
)

type verifReader struct {
	blocks map[common.Hash]*types.MinorBlock
	parent map[common.Hash]common.Hash
}

func (r *verifReader) GetBlock(h common.Hash) types.IBlock {
	if b, ok := r.blocks[h]; ok {
		return b
	}
	return (*types.MinorBlock)(nil)
}

func verifRecipient(i int) account.Recipient { return account.Recipient{byte(i + 1), 0xee} }

func verifBlock(parent common.Hash, number uint64, cb account.Recipient, salt uint64, time uint64, diff *big.Int) *types.MinorBlock {
	return types.NewMinorBlockWithHeader(&types.MinorBlockHeader{ParentHash: parent, Number: number, Coinbase: account.Address{Recipient: cb}, Nonce: salt, Time: time,
		Difficulty: diff, CoinbaseAmount: types.NewEmptyTokenBalances(), GasLimit: &serialize.Uint256{Value: new(big.Int)}}, &types.MinorBlockMeta{})
}

// verifTree: genesis g, a main chain g-1-2-3-4 and a fork 2-3'-4', with
// coinbases chosen among two miners.
func verifTree(n int) (*verifReader, []*types.MinorBlock) {
	r := &verifReader{blocks: map[common.Hash]*types.MinorBlock{}}
	parents := []int{-1, 0, 1, 2, 3, 2, 5}
	var bs []*types.MinorBlock
	for i := 0; i < n; i++ {
		var ph common.Hash
		var num uint64
		if parents[i] >= 0 {
			p := bs[parents[i]]
			ph, num = p.Hash(), p.NumberU64()+1
		}
		who := 0
		if i > 0 {
			who = verifsym.Choose("cb", 2)
		}
		b := verifBlock(ph, num, verifRecipient(who), uint64(i), 1000+num, big.NewInt(1000))
		r.blocks[b.Hash()] = b
		bs = append(bs, b)
	}
	return r, bs
}

// verifCount: blocks mined by cb among the window-1 blocks that end at b
func verifCount(r *verifReader, b *types.MinorBlock, window uint64, cb account.Recipient) uint64 {
	n := uint64(0)
	for i := uint64(1); i < window && b != nil; i++ {
		if b.Header().Coinbase.Recipient == cb {
			n++
		}
		b = r.blocks[b.Header().ParentHash]
	}
	return n
}

// The adjusted difficulty depends only on the chain the block extends, the
// stake and the time - not on which other blocks were looked at before: it is
// the block's difficulty divided by the divider if the miner's recent blocks
// are fewer than its stake allows, else the difficulty itself.
//
//verif:harness V14 time=120 ttime=900 paths=400000 reach=divided,full,nostake,few
//verif:bounds block tree of genesis, 4 blocks and a fork of 2 (quick 5 blocks), coinbases among two miners, windows 2 and 3, up to 1 (thorough 2) earlier look-ups of any block, then any parent; all stakes below 2^128, all difficulties below 2^128, stake per block 2^70
func VerifH_V14_Adjust() {
	n := verifsym.Bound("blocks", 6, 7)
	r, bs := verifTree(n)
	w := uint64(2 + verifsym.Choose("window", 2))
	cfg := &config.POSWConfig{Enabled: true, WindowSize: w, DiffDivider: 20, TotalStakePerBlock: big.NewInt(1000)}
	p := NewPoSW(r, cfg)
	for i := 0; i < verifsym.Bound("lookups", 1, 2); i++ {
		if k := verifsym.Choose("look", n+1); k < n {
			if _, err := p.BuildSenderDisallowMap(bs[k].Hash(), nil); err != nil {
				verifsym.Assert(false, "look-up of a known block fails")
			}
		}
	}
	par := bs[verifsym.Choose("parent", n)]
	cb := verifRecipient(verifsym.Choose("me", 2))
	d := verifsym.Big("d", big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), 128))
	h := verifBlock(par.Hash(), par.NumberU64()+1, cb, 99, 5000, d).Header()
	cnt := verifCount(r, par, w, cb)
	per := new(big.Int).Lsh(big.NewInt(1), 70)
	var stakes *big.Int
	if verifsym.Choose("known", 2) == 1 {
		stakes = verifsym.Big("stakes", big.NewInt(0), new(big.Int).Mul(per, big.NewInt(1<<40)))
	}
	got, err := p.PoSWDiffAdjust(h, stakes, *per)
	verifsym.Assert(err == nil, "adjustment fails")
	if stakes == nil {
		verifsym.Assert(got.Cmp(d) == 0, "unknown stake must not lower the difficulty")
		verifsym.Reach("nostake")
		return
	}
	allowed := new(big.Int).Div(stakes, per)
	if allowed.Cmp(new(big.Int).SetUint64(w)) > 0 {
		allowed.SetUint64(w)
	}
	if allowed.Cmp(new(big.Int).SetUint64(cnt)) > 0 {
		verifsym.Assert(got.Cmp(new(big.Int).Div(d, big.NewInt(20))) == 0, "staked miner below its quota mines at the divided difficulty")
		verifsym.Reach("divided")
	} else {
		verifsym.Assert(got.Cmp(d) == 0, "a miner at its quota mines at the full difficulty")
		verifsym.Reach("full")
	}
	if cnt < w-1 {
		verifsym.Reach("few")
	}
	verifsym.Assert(h.Difficulty.Cmp(d) == 0, "adjusting changes the header")
}

// While blocks of a miner are in the window, the stake they need is locked:
// the disallow map holds, for exactly the miners in the window (and the given
// one, counted once more), the number of their blocks times the stake per block.
//
//verif:harness V14 time=120 ttime=900 paths=400000 reach=map,off
//verif:bounds block tree as above, windows 2..4, one earlier look-up, all stakes per block below 2^64
func VerifH_V14_Locked() {
	n := verifsym.Bound("blocks", 6, 7)
	enabled := verifsym.Choose("enabled", 2) == 1
	if !enabled {
		n = 2
	}
	r, bs := verifTree(n)
	w := uint64(2 + verifsym.Choose("window", 3))
	per := verifsym.Big("per", big.NewInt(1), new(big.Int).SetUint64(1<<63))
	cfg := &config.POSWConfig{Enabled: enabled, WindowSize: w, DiffDivider: 20, TotalStakePerBlock: per}
	p := NewPoSW(r, cfg)
	if k := verifsym.Choose("look", n+1); k < n {
		p.countCoinbaseBlockUntil(bs[k].Hash(), verifRecipient(0))
	}
	b := bs[verifsym.Choose("block", n)]
	var extra *account.Recipient
	e := []int{0, 2, 3}[verifsym.Choose("extra", 3)]
	if e < 3 {
		x := verifRecipient(e)
		extra = &x
	}
	m, err := p.BuildSenderDisallowMap(b.Hash(), extra)
	verifsym.Assert(err == nil, "map fails")
	if !cfg.Enabled {
		verifsym.Assert(len(m) == 0, "stake locked although PoSW is off")
		verifsym.Reach("off")
		return
	}
	total := 0
	for i := 0; i < 3; i++ {
		c := verifCount(r, b, w, verifRecipient(i))
		if i == e {
			c++
		}
		v, ok := m[verifRecipient(i)]
		verifsym.Assert(ok == (c > 0), "locked exactly if it has blocks in the window")
		if ok {
			total++
			verifsym.Assert(v.Cmp(new(big.Int).Mul(per, new(big.Int).SetUint64(c))) == 0, "locked amount")
		}
	}
	verifsym.Assert(len(m) == total, "somebody else's stake is locked")
	verifsym.Reach("map")
}

// The divider is the configured one before the boost and grows by the
// multiplier at each step interval, up to the last step.
//
//verif:harness V14 time=60 reach=off,before,steps,capped
//verif:bounds all block times, boost times and step intervals (up to 10^7 s); multiplier 2 or 3, 1 to 10 steps, divider 1 to 2^20
func VerifH_V14_Divider() {
	base := verifsym.U64r("divider", 1, 1<<20)
	mult := uint64(2 + verifsym.Choose("mult", 2))
	steps := uint64(1 + verifsym.Choose("steps", 10))
	boost, now := verifsym.U64("boost"), verifsym.U64("now")
	iv := []uint64{1, 3600, 86400 * 2, 10000000}[verifsym.Choose("interval", 4)]
	c := &config.POSWConfig{Enabled: true, DiffDivider: base, BoostTimestamp: boost, BoostMultiplierPerStep: mult, BoostSteps: steps, BoostStepInterval: iv}
	got := c.GetDiffDivider(now)
	verifsym.Observe("divider", got)
	if boost == 0 {
		verifsym.Assert(got == base, "no boost configured")
		verifsym.Reach("off")
		return
	}
	if now < boost {
		verifsym.Assert(got == base, "boost before its time")
		verifsym.Reach("before")
		return
	}
	want := base
	cur := boost
	for i := uint64(0); i < steps; i++ {
		want *= mult
		if now-cur < iv {
			verifsym.Assert(got == want, "divider after some steps")
			verifsym.Reach("steps")
			return
		}
		cur += iv
	}
	verifsym.Assert(got == want, "divider after the last step")
	verifsym.Reach("capped")
}

// What the wallet is shown agrees with what the chain will apply.
//
//verif:harness V14 time=90 ttime=600 paths=400000 reach=on,off
//verif:bounds block tree as above, windows 2..4, any tip, any enable time, stakes below 2^128
func VerifH_V14_Info() {
	n := verifsym.Bound("blocks", 5, 6)
	r, bs := verifTree(n)
	w := uint64(2 + verifsym.Choose("window", 3))
	at := verifsym.U64("at")
	cfg := &config.POSWConfig{Enabled: verifsym.Choose("enabled", 2) == 1, EnableTimestamp: at, WindowSize: w, DiffDivider: 20, TotalStakePerBlock: big.NewInt(1000)}
	p := NewPoSW(r, cfg)
	b := bs[verifsym.Choose("tip", n)]
	stakes := verifsym.Big("stakes", big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), 72))
	me := verifRecipient(verifsym.Choose("me", 2))
	diff, mineable, mined, err := p.GetPoSWInfo(b.Header(), stakes, me, *big.NewInt(1000))
	verifsym.Assert(err == nil, "info fails")
	cnt := verifCount(r, b, w, me)
	verifsym.Assert(mined == cnt, "mined blocks")
	on := cfg.Enabled && b.Time() >= at && b.NumberU64() > 0
	verifsym.Assert(p.IsPoSWEnabled(b.Time(), b.NumberU64()) == on, "enabled from its time on, never at genesis")
	if !on {
		verifsym.Assert(diff.Cmp(big.NewInt(1000)) == 0 && mineable == 0, "info while PoSW is off")
		verifsym.Reach("off")
		return
	}
	allowed := new(big.Int).Div(stakes, big.NewInt(1000))
	if allowed.Cmp(new(big.Int).SetUint64(w)) > 0 {
		allowed.SetUint64(w)
	}
	verifsym.Assert(allowed.Cmp(new(big.Int).SetUint64(mineable)) == 0, "mineable blocks")
	if mined < mineable {
		verifsym.Assert(diff.Cmp(big.NewInt(50)) == 0, "effective difficulty")
	} else {
		verifsym.Assert(diff.Cmp(big.NewInt(1000)) == 0, "full difficulty")
	}
	verifsym.Reach("on")
}

// Whatever was looked up before, on whichever fork, the stake locked at a block
// is that of the miners of its own chain.
//
//verif:harness V14 time=100 ttime=900 paths=400000 reach=done
//verif:bounds chain of genesis and 4 blocks with a fork after the second, coinbases of the last four among two miners, windows 2..4 (thorough 2..5), 3 (thorough 4) earlier look-ups of any of the last four and their common parent, then any of them; all stakes per block below 2^64
func VerifH_V14_Forks() {
	r := &verifReader{blocks: map[common.Hash]*types.MinorBlock{}}
	var bs []*types.MinorBlock
	for i, p := range []int{-1, 0, 1, 2, 3, 2} {
		var ph common.Hash
		num := uint64(0)
		who := 0
		if p >= 0 {
			ph, num = bs[p].Hash(), bs[p].NumberU64()+1
		}
		if i > 2 {
			who = verifsym.Choose("cb", 2)
		}
		b := verifBlock(ph, num, verifRecipient(who), uint64(i), 1000+num, big.NewInt(1000))
		r.blocks[b.Hash()] = b
		bs = append(bs, b)
	}
	w := uint64(2 + verifsym.Choose("window", verifsym.Bound("windows", 3, 4)))
	per := verifsym.Big("per", big.NewInt(1), new(big.Int).SetUint64(1<<63))
	p := NewPoSW(r, &config.POSWConfig{Enabled: true, WindowSize: w, DiffDivider: 20, TotalStakePerBlock: per})
	n := verifsym.Bound("lookups", 3, 4)
	for i := 0; i <= n; i++ {
		b := bs[2+verifsym.Choose("look", 4)]
		m, err := p.BuildSenderDisallowMap(b.Hash(), nil)
		verifsym.Assert(err == nil, "look-up of a known block fails")
		if i < n {
			continue
		}
		for k := 0; k < 2; k++ {
			c := verifCount(r, b, w, verifRecipient(k))
			v, ok := m[verifRecipient(k)]
			verifsym.Assert(ok == (c > 0), "locked exactly if it has blocks in the window, after look-ups on forks")
			if ok {
				verifsym.Assert(v.Cmp(new(big.Int).Mul(per, new(big.Int).SetUint64(c))) == 0, "locked amount after look-ups on forks")
			}
		}
	}
	verifsym.Reach("done")
}
