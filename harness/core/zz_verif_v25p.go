package core

import (
	"math/big"

	"github.com/QuarkChain/goquarkchain/core/rawdb"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/verifsym"
	"github.com/ethereum/go-ethereum/common"
)

// The price suggested is the percentile of the latest blocks' prices in that token.
//
//verif:harness V25 time=120 ttime=600 paths=50000 steps=400000000
//verif:bounds a chain of five blocks (the first two do not count) with up to two transactions each, all prices (64 bits) and two tokens; the number of blocks and percentile as configured, and 2 blocks with 0, 60 or 100 percent
func VerifH_V25_Price() {
	s := verifNewShard()
	prices := map[uint64][]uint64{}
	o := s.m.gasPriceSuggestionOracle
	if k := verifsym.Choose("oracle", 4); k > 0 {
		o.CheckBlocks, o.Percentile = 2, []uint64{0, 0, 60, 100}[k]
	}
	b := s.minors[0]
	for h := 1; h <= 5; h++ {
		c := b.CreateBlockToAppend(nil, nil, nil, nil, nil, nil, nil, nil, nil)
		b = types.NewMinorBlockWithHeader(c.Header(), c.Meta())
		for k := 0; k < []int{0, 1, 0, 1, 2, 2}[h]; k++ {
			p, tok := verifsym.U64("price"+string(rune('0'+h))+string(rune('a'+k))), uint64(35760)
			if h == 4 && k == 1 {
				tok = 990
			}
			to := verifAddr(9)
			b.AddTx(verifTx(s.from.Recipient, &to, 0, new(big.Int), 21000, verifB(p), 0, 0, nil, tok, 35760))
			if h >= 3 && uint64(h)+o.CheckBlocks > 5 {
				prices[tok] = append(prices[tok], p)
			}
		}
		s.m.blockCache.Add(b.Hash(), b)
		rawdb.WriteCanonicalHash(s.m.db, rawdb.ChainTypeMinor, b.Hash(), b.NumberU64())
	}
	s.m.currentBlock.Store(b)
	for k := 0; k < 2; k++ { // again from the cache
		for _, tok := range []uint64{35760, 990} {
			got, err := s.m.GasPrice(tok)
			verifsym.Assert(err == nil, "a price is suggested")
			below, upto := uint64(0), uint64(0)
			for _, p := range prices[tok] {
				below += verifsym.Ite64(p < got, 1, 0)
				upto += verifsym.Ite64(p <= got, 1, 0)
			}
			rank := (uint64(len(prices[tok])) - 1) * o.Percentile / 100
			verifsym.Assert(verifsym.And(below <= rank, rank < upto), "the price is the one of that rank")
		}
		got, err := s.m.GasPrice(5)
		verifsym.Assert(err == nil && got == s.m.clusterConfig.Quarkchain.MinTXPoolGasPrice.Uint64(), "nothing was paid in that token")
	}
}

var _ = common.Hash{}
