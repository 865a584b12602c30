package consensus

import (
	"encoding/binary"
	"errors"
	"math/big"

	"github.com/QuarkChain/goquarkchain/verifsym"
	"github.com/ethereum/go-ethereum/common"
)

// The local miner reports the first nonce, counted from where it starts, whose
// hash meets the target, together with that hash; failing hash computations
// are retried.
//
//verif:harness V13 time=90 ttime=300 reach=first,later,retried
//verif:bounds arbitrary hash results for up to 3 (thorough 5) consecutive nonces, any start nonce (wrapping included), difficulties 0, 1, 3, 10^6 and 2^200, one failing hash computation at any point
func VerifH_V13_Mine() {
	k := verifsym.Bound("nonces", 3, 5)
	diff := []*big.Int{new(big.Int), big.NewInt(1), big.NewInt(3), big.NewInt(1000000), new(big.Int).Lsh(big.NewInt(1), 200)}[verifsym.Choose("diff", 5)]
	start := verifsym.U64("start")
	hashes := make([][]byte, k)
	for i := range hashes {
		hashes[i] = verifsym.WideBytes("h", 32)
	}
	failAt := verifsym.Choose("fail", k+1)
	failed := false
	var tried []uint64
	spec := MiningSpec{Name: "x", HashAlgo: func(s *ShareCache) error {
		i := len(tried)
		if i == failAt && !failed {
			failed = true
			return errors.New("no")
		}
		verifsym.Assert(s.Height == 9 && len(s.Hash) == 32 && s.Hash[0] == 5 && s.BlockTime == 77, "what is hashed")
		tried = append(tried, s.Nonce)
		verifsym.Assume(i < k)
		s.Result = hashes[i]
		s.Digest = make([]byte, 32)
		binary.BigEndian.PutUint64(s.Digest, s.Nonce)
		return nil
	}}
	c := &CommonEngine{spec: spec}
	found := make(chan MiningResult, 1)
	c.mine(MiningWork{HeaderHash: common.Hash{5}, Number: 9, Difficulty: diff, BlockTime: 77}, 0, start, make(chan struct{}), found)
	r := <-found
	target := new(big.Int).Lsh(big.NewInt(1), 256)
	if diff.Sign() > 0 {
		target.Div(target, diff)
	}
	n := len(tried)
	for i := 0; i < n; i++ {
		verifsym.Assert(tried[i] == start+uint64(i), "nonces are tried in order")
		ok := new(big.Int).SetBytes(hashes[i]).Cmp(target) <= 0
		verifsym.Assert(ok == (i == n-1), "the miner stops exactly at the first solution")
	}
	verifsym.Assert(r.Nonce == tried[n-1] && binary.BigEndian.Uint64(r.Digest[:8]) == r.Nonce, "reported nonce")
	verifsym.Assert(new(big.Int).SetBytes(r.Result).Cmp(new(big.Int).SetBytes(hashes[n-1])) == 0, "reported hash")
	if n == 1 {
		verifsym.Reach("first")
	} else {
		verifsym.Reach("later")
	}
	if failed {
		verifsym.Reach("retried")
	}
}
