package consensus

import (
	"math/big"

	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/verifsym"
)

func verifParent(time uint64, diff *big.Int, root bool) types.IBlock {
	if root {
		return types.NewRootBlockWithHeader(&types.RootBlockHeader{Time: time, Difficulty: diff, Number: 5, CoinbaseAmount: types.NewEmptyTokenBalances(), ToTalDifficulty: new(big.Int)})
	}
	return types.NewMinorBlockWithHeader(&types.MinorBlockHeader{Time: time, Difficulty: diff, Number: 5, CoinbaseAmount: types.NewEmptyTokenBalances()}, &types.MinorBlockMeta{})
}

var verifTwo128 = new(big.Int).Lsh(big.NewInt(1), 128)

// The difficulty of a block follows from its parent's difficulty and the time
// between them: one step up below the cutoff, unchanged up to twice the cutoff,
// then one step down per further cutoff, at most 99, and never below the minimum.
//
//verif:harness V12 time=90 ttime=300 reach=up,same,down,capped,floor,early
//verif:bounds all parent difficulties below 2^128, all pairs of timestamps, all minima below 2^64; (cutoff, factor) of the minor chain, the root chain and three others; minor and root parents
func VerifH_V12_Step() {
	ps := [][2]uint32{{7, 512}, {40, 1024}, {9, 2048}, {1, 1}, {60, 4096}}
	p := ps[verifsym.Choose("params", len(ps))]
	min := verifsym.Big("min", big.NewInt(1), new(big.Int).SetUint64(1<<63))
	d := verifsym.Big("d", big.NewInt(1), verifTwo128)
	t0, t1 := verifsym.U64("t0"), verifsym.U64("t1")
	c := &EthDifficultyCalculator{AdjustmentCutoff: p[0], AdjustmentFactor: p[1], MinimumDifficulty: new(big.Int).Set(min)}
	dd := new(big.Int).Set(d)
	got, err := c.CalculateDifficulty(verifParent(t0, dd, verifsym.Choose("root", 2) == 1), t1)
	if t1 < t0 {
		verifsym.Assert(err != nil, "a block before its parent has a difficulty")
		verifsym.Reach("early")
		return
	}
	verifsym.Assert(err == nil, "difficulty refused")
	verifsym.Observe("diff", got)
	steps := (t1 - t0) / uint64(p[0])
	step := new(big.Int).Div(d, new(big.Int).SetUint64(uint64(p[1])))
	want := new(big.Int)
	switch {
	case steps == 0:
		want.Add(d, step)
		verifsym.Reach("up")
	case steps == 1:
		want.Set(d)
		verifsym.Reach("same")
	case steps < 100:
		want.Sub(d, want.Mul(step, new(big.Int).SetUint64(steps-1)))
		verifsym.Reach("down")
	default:
		want.Sub(d, want.Mul(step, big.NewInt(99)))
		verifsym.Reach("capped")
	}
	if want.Cmp(min) < 0 {
		want = min
		verifsym.Reach("floor")
	}
	verifsym.Assert(got.Cmp(want) == 0, "difficulty")
	verifsym.Assert(c.MinimumDifficulty.Cmp(min) == 0 && dd.Cmp(d) == 0, "the calculator changes its inputs")
}
