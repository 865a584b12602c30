package core

import (
	"math/big"

	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/verifsym"
)

var verifDecays = [][2]int64{{1, 2}, {88, 100}, {7, 9}, {1, 1}}

// floor(x * (n/d)^e)
func verifDecay(x *big.Int, n, d int64, e uint64) *big.Int {
	num, den := big.NewInt(1), big.NewInt(1)
	for i := uint64(0); i < e; i++ {
		num, den = verifMul(num, big.NewInt(n)), verifMul(den, big.NewInt(d))
	}
	return new(big.Int).Div(verifMul(x, num), den)
}

// verifHeight: a height in epoch e of the given length
func verifHeight(name string, interval, e uint64) uint64 {
	return verifsym.U64r(name, e*interval, (e+1)*interval-1)
}

// The reward of a root block is the tax on what the confirmed minor blocks
// earned, rounded down per token, plus the root reward decayed once per epoch;
// it depends on the block only, not on what was asked before.
//
//verif:harness V15 time=60 ttime=300
//verif:bounds epochs 0..3, four decay rates, all heights in an epoch of 1000 blocks, two minor blocks with coinbase in two tokens below 2^62, reward below 2^62, tax rate 3/7 or 1
func VerifH_V15_Root() {
	bc, _, g := verifRootChain()
	cfg := bc.chainConfig
	dr := verifDecays[verifsym.Choose("decay", len(verifDecays))]
	cfg.BlockRewardDecayFactor = big.NewRat(dr[0], dr[1])
	rate := big.NewRat(3, 7)
	if verifsym.Choose("rate", 2) == 1 {
		rate = big.NewRat(1, 1)
	}
	cfg.RewardCalculateRate = rate
	cfg.Root.EpochInterval = 1000
	cfg.Root.CoinbaseAmount = verifsym.Big("reward", big.NewInt(1<<61), big.NewInt(1<<62-1))
	amount := new(big.Int).Set(cfg.Root.CoinbaseAmount)
	tok := cfg.GetDefaultChainTokenID()
	s := &verifRootSet{bc: bc}
	s.note(g, -1, nil)
	lo, hi := big.NewInt(1<<60), big.NewInt(1<<62-1)
	t1 := verifsym.Big("t1", lo, hi)
	t2 := verifsym.Big("t2", lo, hi)
	u1 := verifsym.Big("u1", lo, hi)
	a, b := s.minor(2, -1, 0, false, 0), s.minor(3, -1, 0, false, 0)
	bc.AddValidatedMinorBlockHeader(s.mh[a].h.Hash(), types.NewTokenBalancesWithMap(map[uint64]*big.Int{tok: t1, 77: u1}))
	bc.AddValidatedMinorBlockHeader(s.mh[b].h.Hash(), types.NewTokenBalancesWithMap(map[uint64]*big.Int{tok: t2}))
	for i := 0; i < 3; i++ {
		e := uint64(verifsym.Choose("epoch", 4))
		n := verifsym.Choose("headers", 3)
		mh := []*types.MinorBlockHeader{s.mh[a].h, s.mh[b].h}[:n]
		rb := types.NewRootBlockWithHeader(&types.RootBlockHeader{Number: uint32(verifHeight("height", 1000, e)), Difficulty: big.NewInt(1), ToTalDifficulty: big.NewInt(1), CoinbaseAmount: types.NewEmptyTokenBalances()}).WithBody(mh, nil)
		got, err := bc.CalculateRootBlockCoinBase(rb)
		if err != nil {
			verifsym.Assert(false, "no reward: "+err.Error())
			return
		}
		sum, sum2 := new(big.Int), new(big.Int)
		if n > 0 {
			sum, sum2 = verifAdd(sum, t1), u1
		}
		if n > 1 {
			sum = verifAdd(sum, t2)
		}
		want := verifAdd(new(big.Int).Div(verifMul(sum, rate.Num()), rate.Denom()), verifDecay(amount, dr[0], dr[1], e))
		want2 := new(big.Int).Div(verifMul(sum2, rate.Num()), rate.Denom())
		verifsym.Assert(verifEq(got.GetTokenBalance(tok), want), "root reward")
		verifsym.Assert(verifEq(got.GetTokenBalance(77), want2), "root reward in another token")
		// whatever the caller does with it
		got.Add(map[uint64]*big.Int{tok: big.NewInt(5), 77: big.NewInt(5)})
		if i > 0 && n == 0 {
			return
		}
	}
}

// The reward of a minor block and the stake asked per block decay once per
// epoch, and do not depend on what was asked before or on what the caller did
// with the answer.
//
//verif:harness V15 time=100 ttime=300
//verif:bounds two questions of either kind in any order, epochs 0..3, four decay rates, fee rate 4/7 or 1/2, all heights in an epoch of 1000 blocks, rewards and stakes 2^61..2^62-1, before and after the decay of stakes sets in
func VerifH_V15_Minor() {
	dr := verifDecays[verifsym.Choose("decay", len(verifDecays))]
	rate := big.NewRat(4, 7)
	if verifsym.Choose("rate", 2) == 1 {
		rate = big.NewRat(1, 2)
	}
	lo, hi := big.NewInt(1<<61), big.NewInt(1<<62-1)
	reward, stake := verifsym.Big("reward", lo, hi), verifsym.Big("stake", lo, hi)
	var cfg *config.QuarkChainConfig
	s := verifNewShardWith(func(c *config.QuarkChainConfig) {
		cfg = c
		cfg.BlockRewardDecayFactor = big.NewRat(dr[0], dr[1])
		cfg.LocalFeeRate = rate
		cfg.EnablePoswStakingDecayTimestamp = 5000
		for _, id := range cfg.GetGenesisShardIds() {
			sc := cfg.GetShardConfigByFullShardID(id)
			sc.EpochInterval = 1000
			sc.CoinbaseAmount, sc.PoswConfig.TotalStakePerBlock = new(big.Int).Set(reward), new(big.Int).Set(stake)
		}
	})
	m := s.m
	tok := cfg.GetDefaultChainTokenID()
	base := new(big.Int).Div(verifMul(reward, rate.Num()), rate.Denom())
	for i := 0; i < 2; i++ {
		e := uint64(verifsym.Choose("epoch", 4))
		h := verifHeight("height", 1000, e)
		if verifsym.Choose("kind", 2) == 0 {
			got := m.getCoinbaseAmount(h)
			verifsym.Assert(verifEq(got.GetTokenBalance(tok), verifDecay(base, dr[0], dr[1], e)), "minor reward")
			verifsym.Assert(got.Len() == 1, "reward in one token only")
			got.Add(map[uint64]*big.Int{tok: big.NewInt(5), 77: big.NewInt(5)})
			got = m.getCoinbaseAmount(h)
			verifsym.Assert(got.Len() == 1 && verifEq(got.GetTokenBalance(tok), verifDecay(base, dr[0], dr[1], e)), "minor reward, asked again")
		} else {
			t := verifsym.U64r("time", 4000, 6000)
			got := m.DecayByHeightAndTime(h, t)
			want := verifDecay(stake, dr[0], dr[1], e)
			if t < 5000 {
				want = stake
			}
			verifsym.Assert(verifEq(&got, want), "stake per block")
		}
	}
}
