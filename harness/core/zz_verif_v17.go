package core

import (
	"math/big"

	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/verifsym"
)

// valid: what a root block on p may confirm
func (s *verifRootSet) valid(p int, list []int, t uint64) bool {
	last := uint32(0)
	n := 0
	ok := true
	for k, i := range list {
		x := s.mh[i]
		if !x.ok || x.shard < last {
			return false
		}
		prev := -1
		if x.shard > last {
			n = 0
			if c, has := s.conf[p][x.shard]; has {
				prev = c
			}
		} else if k > 0 {
			prev = list[k-1]
		}
		last = x.shard
		if x.parent != prev {
			return false
		}
		max := 2
		if x.shard == 3 {
			max = 1
		}
		if n++; n > max {
			return false
		}
		if x.shard != 2 && x.shard != 3 && x.shard != 0x10002 { // no such shard
			return false
		}
		if x.shard == 0x10002 && s.roots[p].Number()+1 <= 2 { // not there yet
			return false
		}
		anc := p
		for anc >= 0 && anc != x.prev {
			anc = s.rp[anc]
		}
		if anc < 0 {
			return false
		}
		ok = verifsym.And(ok, x.h.Time <= t)
	}
	return ok
}

// Whatever list of minor blocks a root block names, the root chain takes it if
// and only if it confirms, per shard, validated blocks that continue what the
// chain has confirmed so far, in shard order, no more than allowed, none later
// than the root block and none that has seen a root block of another chain; and
// whatever the list, it never brings the node down.
//
//verif:harness V17 time=200 ttime=900 paths=400000 reach=accept,refuse,late
//verif:bounds root block on any of 4 blocks of a forked chain, all lists of up to 2 (thorough 3) headers out of 17 (forks, gaps, not validated, unknown shard, shard 0, a shard that joins later, root block unknown / on another chain / higher than the block), all times of one header
func VerifH_V17_Confirms() {
	bc, _, g := verifRootChain()
	bc.chainConfig.Root.ConsensusConfig.TargetBlockTime = 6
	for _, id := range []uint32{2, 3, 0x10002} {
		c := bc.chainConfig.GetShardConfigByFullShardID(id)
		c.ConsensusConfig.TargetBlockTime = 3
		if id == 3 {
			c.ConsensusConfig.TargetBlockTime = 6
		}
		c.ExtraShardBlocksInRootBlock = 0
		if id == 0x10002 { // joins late
			c.Genesis.RootHeight = 2
		}
	}
	s := &verifRootSet{bc: bc}
	s.note(g, -1, nil)
	a0 := s.minor(2, -1, 0, true, 0)
	a1 := s.minor(2, a0, 0, true, 0)
	a2 := s.minor(2, a1, 0, true, 0)
	b0 := s.minor(3, -1, 0, true, 0)
	r1 := s.root(0, 1, a0, b0)
	r2 := s.root(r1, 2, a1)
	f1 := s.root(0, 3)
	s.minor(2, a2, r1, true, 0)
	s.minor(2, a1, r1, true, 99)
	s.minor(2, a1, f1, true, 0)
	s.minor(2, a1, r2, true, 0)
	s.minor(2, a1, 0, false, 7)
	s.minor(3, b0, 0, true, 0)
	s.minor(3, b0, r2, true, 0)
	s.minor(0x10002, -1, 0, true, 0)
	s.minor(0x50002, -1, 0, false, 0)
	s.minor(0, -1, 0, false, 0)
	s.minor(2, a0, -1, true, 0)
	s.minor(2, s.minor(2, a0, 0, true, 5), 0, true, 5) // beside a1
	p := verifsym.Choose("parent", len(s.roots))
	var list []int
	for n := verifsym.Choose("len", verifsym.Bound("len", 2, 3)+1); n > 0; n-- {
		list = append(list, verifsym.Choose("header", len(s.mh)))
	}
	b := s.block(p, 77, list...)
	ok := s.valid(p, list, b.Time())
	_, err := bc.InsertChain([]types.IBlock{b})
	verifsym.Assert(verifsym.Implies(err == nil, ok), "a root block with a bad list of minor blocks was taken")
	if err != nil {
		verifsym.Assert(verifsym.Implies(ok, err == nil), "a good root block was refused: "+err.Error())
		verifsym.Reach("refuse")
		if len(list) == 1 && list[0] == 5 && p == r2 {
			verifsym.Reach("late")
		}
		return
	}
	verifsym.Reach("accept")
	s.note(b, p, list)
	got := bc.GetLatestMinorBlockHeaders(b.Hash())
	want := s.conf[len(s.conf)-1]
	verifsym.Assert(len(got) == len(want), "shards with a confirmed block")
	for k, i := range want {
		verifsym.Assert(got[k] != nil && got[k].Hash() == s.mh[i].h.Hash(), "last confirmed block of a shard")
		x := bc.GetLastConfirmedMinorBlockHeader(b.Hash(), k)
		verifsym.Assert(x != nil && x.Hash() == s.mh[i].h.Hash(), "last confirmed block of a shard, asked for")
	}
	for i, m := range s.conf[:len(s.roots)-1] {
		got := bc.GetLatestMinorBlockHeaders(s.roots[i].Hash())
		verifsym.Assert(len(got) == len(m), "another block's confirmed blocks changed")
		for k, j := range m {
			verifsym.Assert(got[k] != nil && got[k].Hash() == s.mh[j].h.Hash(), "another block's confirmed blocks changed")
		}
	}
}

// A root block is taken exactly if its header says what is so: the difficulty
// of the chain that ends in it, the minor blocks it confirms, the reward due,
// no more extra data than allowed.
//
//verif:harness V17 time=100 ttime=300 reach=accept,refuse
//verif:bounds a block at height 1 that confirms one minor block with coinbase in two tokens; all coinbase amounts below 2^62, all claimed rewards, all total difficulties, wrong list root / state root, extra data around the limit
func VerifH_V17_Header() {
	bc, _, g := verifRootChain()
	cfg := bc.chainConfig
	cfg.SkipRootCoinbaseCheck = false
	cfg.RewardCalculateRate = big.NewRat(3, 7)
	tok := cfg.GetDefaultChainTokenID()
	cfg.Root.CoinbaseAmount = verifBig("rootreward", big.NewInt(1<<62-1))
	s := &verifRootSet{bc: bc}
	s.note(g, -1, nil)
	a := s.minor(2, -1, 0, false, 0)
	m := map[uint64]*big.Int{tok: verifBig("coinbase", big.NewInt(1<<62-1))}
	if verifsym.Choose("second", 2) == 1 {
		m[77] = verifsym.Big("coinbase2", big.NewInt(1<<30), big.NewInt(1<<31-1))
	}
	bc.AddValidatedMinorBlockHeader(s.mh[a].h.Hash(), types.NewTokenBalancesWithMap(m))
	b := s.block(0, 5, a)
	h := b.Header()
	ok := true
	claim := map[uint64]*big.Int{}
	for k, v := range m {
		due := new(big.Int).Div(verifMul(v, big.NewInt(3)), big.NewInt(7))
		if k == tok {
			due.Add(due, cfg.Root.CoinbaseAmount)
			c := verifBig("claim", big.NewInt(1<<63-1))
			claim[k] = c
			ok = verifsym.And(ok, verifEq(c, due))
		} else {
			c := verifsym.Big("claim2", big.NewInt(1<<24), big.NewInt(1<<32-1))
			claim[k] = c
			ok = verifsym.And(ok, verifEq(c, due))
		}
	}
	if verifsym.Choose("extratoken", 2) == 1 {
		claim[78] = big.NewInt(1)
		ok = false
	}
	h.CoinbaseAmount = types.NewTokenBalancesWithMap(claim)
	td := verifsym.Big("td", big.NewInt(1<<16), big.NewInt(1<<40))
	ok = verifsym.And(ok, verifEq(td, verifAdd(g.TotalDifficulty(), h.Difficulty)))
	h.ToTalDifficulty = td
	var extra []byte
	switch verifsym.Choose("what", 5) {
	case 1:
		h.MinorHeaderHash[3] ^= 1
		ok = false
	case 2:
		h.Root[3] ^= 1
		ok = false
	case 3:
		extra = make([]byte, cfg.BlockExtraDataSizeLimit+1)
		ok = false
	case 4:
		extra = make([]byte, cfg.BlockExtraDataSizeLimit)
	}
	b = types.NewRootBlockWithHeader(h).WithBody(types.MinorBlockHeaders{s.mh[a].h}, nil)
	if extra != nil {
		b = types.NewRootBlock(h, types.MinorBlockHeaders{s.mh[a].h}, extra)
	}
	_, err := bc.InsertChain([]types.IBlock{b})
	verifsym.Assert(verifsym.Iff(err == nil, ok), "a root block is taken if and only if its header is right")
	if err == nil {
		verifsym.Reach("accept")
	} else {
		verifsym.Reach("refuse")
	}
}
