package doublesha256

import (
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"math/big"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/consensus"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/serialize"
	"github.com/QuarkChain/goquarkchain/verifsym"
	"github.com/ethereum/go-ethereum/common"
)

type verifChain struct {
	cfg     *config.QuarkChainConfig
	block   types.IBlock
	skip    bool
	diff    *big.Int
	divider uint64
	fail    bool
}

func (c *verifChain) Config() *config.QuarkChainConfig              { return c.cfg }
func (c *verifChain) CurrentHeader() types.IHeader                  { return c.block.IHeader() }
func (c *verifChain) GetHeader(h common.Hash) types.IHeader         { return nil }
func (c *verifChain) GetHeaderByNumber(number uint64) types.IHeader { return nil }
func (c *verifChain) GetBlock(h common.Hash) types.IBlock {
	if h == c.block.Hash() {
		return c.block
	}
	return nil
}
func (c *verifChain) GetAdjustedDifficulty(header types.IHeader) (*big.Int, uint64, error) {
	if c.fail {
		return nil, 0, errors.New("no")
	}
	return c.diff, c.divider, nil
}
func (c *verifChain) SkipDifficultyCheck() bool { return c.skip }

var verifTwo256 = new(big.Int).Lsh(big.NewInt(1), 256)

// verifWorkOK: does the header carry the work that diff asks for
func verifWorkOK(h types.IHeader, diff *big.Int) bool {
	seed := make([]byte, 40)
	s := h.SealHash()
	copy(seed, s[:])
	binary.BigEndian.PutUint64(seed[32:], h.GetNonce())
	a := sha256.Sum256(seed)
	b := sha256.Sum256(a[:])
	r := new(big.Int).SetBytes(b[:])
	if diff.Sign() == 0 {
		diff = big.NewInt(1)
	}
	// r <= floor(2^256/diff)  iff  r*diff <= 2^256
	return new(big.Int).Mul(r, diff).Cmp(verifTwo256) <= 0
}

// A header is accepted exactly if its version is 0, its parent is known and one
// lower, its extra data is within the limit, it is later than its parent, its
// difficulty is the one its parent prescribes (unless that check is off), and
// its hash meets the difficulty that applies to its miner.
//
//verif:harness V13 time=120 ttime=600 reach=ok,version,parent,height,extra,time,diff,work,fail
//verif:bounds all versions, heights, parent and block timestamps, difficulties below 2^64, extra-data limits; PoW target difficulty any of 6 orders of magnitude, divider 1..64; 4 nonces
func VerifH_V13_Header() {
	cfg := config.NewQuarkChainConfig()
	cfg.BlockExtraDataSizeLimit = verifsym.U32("limit")
	root := verifsym.Choose("root", 2) == 1
	t0 := uint64(1600000000)
	d0 := big.NewInt(1000000)
	var parent types.IBlock
	if root {
		parent = types.NewRootBlockWithHeader(&types.RootBlockHeader{Time: t0, Difficulty: d0, Number: 5, CoinbaseAmount: types.NewEmptyTokenBalances(), ToTalDifficulty: new(big.Int)})
	} else {
		parent = types.NewMinorBlockWithHeader(&types.MinorBlockHeader{Time: t0, Difficulty: d0, Number: 5, CoinbaseAmount: types.NewEmptyTokenBalances(), GasLimit: &serialize.Uint256{Value: new(big.Int)}}, &types.MinorBlockMeta{})
	}
	ch := &verifChain{cfg: cfg, block: parent, divider: 1, skip: verifsym.Choose("skip", 2) == 1}
	calc := &consensus.EthDifficultyCalculator{AdjustmentCutoff: 7, AdjustmentFactor: 512, MinimumDifficulty: big.NewInt(1000)}
	version, number, time := uint32(0), uint64(6), t0+10
	diff := new(big.Int).Set(d0)
	extra := []byte{}
	ph := parent.Hash()
	work := 0
	switch verifsym.Choose("vary", 8) {
	case 0:
		version = verifsym.U32("version")
	case 1:
		number = verifsym.U64("number")
		if root {
			number = uint64(verifsym.U32("number32"))
		}
	case 2:
		time = verifsym.U64("time")
		if verifsym.Choose("right", 2) == 1 && time >= t0 {
			diff, _ = calc.CalculateDifficulty(parent, time)
		}
	case 3:
		diff = verifsym.Big("diff", big.NewInt(0), new(big.Int).SetUint64(1<<63))
	case 4:
		extra = make([]byte, verifsym.Choose("extra", 4))
	case 5:
		ph[31] ^= 1
	case 6:
		work = 1 + verifsym.Choose("work", 6)
		ch.divider = verifsym.ConcreteU64(1 + uint64(verifsym.Choose("divider", 64)))
	case 7:
		ch.fail = true
	}
	ch.diff = new(big.Int).Lsh(big.NewInt(1), uint(work*2))
	nonce := uint64(verifsym.Choose("nonce", 4))
	var h types.IHeader
	if root {
		h = &types.RootBlockHeader{Version: version, Number: uint32(number), ParentHash: ph, Time: time, Difficulty: diff, ToTalDifficulty: new(big.Int), CoinbaseAmount: types.NewEmptyTokenBalances(), Nonce: nonce, Extra: extra}
	} else {
		h = &types.MinorBlockHeader{Version: version, Number: number, ParentHash: ph, Time: time, Difficulty: diff, CoinbaseAmount: types.NewEmptyTokenBalances(), GasLimit: &serialize.Uint256{Value: new(big.Int)}, Nonce: nonce, Extra: extra, Coinbase: account.Address{}}
	}
	e := New(calc, false, nil)
	err := e.VerifyHeader(ch, h, true)
	want := true
	miss := func(ok bool, what string) {
		if want && !ok {
			want = false
			verifsym.Reach(what)
		}
	}
	miss(version == 0, "version")
	miss(ph == parent.Hash(), "parent")
	miss(number == 6, "height")
	miss(uint32(len(extra)) <= cfg.BlockExtraDataSizeLimit, "extra")
	miss(time > t0, "time")
	if want && !ch.skip {
		exp, _ := calc.CalculateDifficulty(parent, time)
		miss(exp.Cmp(diff) == 0, "diff")
	}
	miss(!ch.fail, "fail")
	if want {
		miss(diff.Sign() > 0, "zero")
	}
	if want {
		miss(verifWorkOK(h, new(big.Int).Div(ch.diff, new(big.Int).SetUint64(ch.divider))), "work")
	}
	verifsym.Assert((err == nil) == want, "header accepted iff it follows the rules")
	if want {
		verifsym.Reach("ok")
		verifsym.Assert(e.VerifyHeader(ch, h, true) == nil, "second look")
	}
	// an earlier verdict does not carry over to a higher difficulty
	ch.diff = new(big.Int).Lsh(big.NewInt(1), 250)
	verifsym.Assert(e.VerifyHeader(ch, h, true) != nil, "seal accepted for a difficulty it does not meet")
}

func verifMinor(number uint64, diff *big.Int, cb byte) *types.MinorBlock {
	return types.NewMinorBlockWithHeader(&types.MinorBlockHeader{Time: 1600000000, Difficulty: diff, Number: number, CoinbaseAmount: types.NewEmptyTokenBalances(),
		GasLimit: &serialize.Uint256{Value: new(big.Int)}, Coinbase: account.Address{FullShardKey: uint32(cb)}}, &types.MinorBlockMeta{})
}

// Work submitted by a remote miner is accepted exactly if it solves a piece of
// work handed out and not withdrawn, with the difficulty that applies to it;
// the block delivered is the one handed out, with the submitted seal.
//
//verif:harness V13 time=120 ttime=600 reach=ok,unknown,work,refreshed,old
//verif:bounds three pieces of work at heights 6, 6+gap and 6 (gap 0..9) for two coinbases, block difficulty 16, adjusted or not, dividers 1..16, 6 nonces, any of the hashes handed out or another one, withdrawn or not
func VerifH_V13_Remote() {
	d := big.NewInt(16)
	adj := big.NewInt([]int64{16, 4, 1}[verifsym.Choose("adj", 3)])
	gap := uint64([]int{0, 6, 7, 9}[verifsym.Choose("gap", 4)])
	e := New(nil, true, nil)
	res := make(chan types.IBlock, 1)
	b1, b2 := verifMinor(6, d, 1), verifMinor(6+gap, d, 2)
	e.SetWork(b1, adj, 1, res)
	e.SetWork(b2, d, 1, res)
	w, err := e.GetWork(b1.Coinbase())
	verifsym.Assert(err == nil && w.HeaderHash == b1.Header().SealHash() && w.Number == 6 && w.Difficulty.Cmp(adj) == 0, "work handed out")
	w, err = e.GetWork(b2.Coinbase())
	verifsym.Assert(err == nil && w.HeaderHash == b2.Header().SealHash() && w.Difficulty.Cmp(d) == 0, "second work handed out")
	_, err = e.GetWork(account.Address{FullShardKey: 9})
	verifsym.Assert(err != nil, "work for a stranger")
	refreshed := verifsym.Choose("refresh", 2) == 1
	if refreshed {
		e.RefreshWork(1)
	}
	nonce := uint64(verifsym.Choose("nonce", 6))
	var b *types.MinorBlock
	hash := common.Hash{1}
	dd := adj
	switch verifsym.Choose("which", 3) {
	case 0:
		b = b1
	case 1:
		b, dd = b2, d
	}
	if b != nil {
		hash = b.Header().SealHash()
	}
	ok := e.SubmitWork(nonce, hash, common.Hash{7}, nil)
	want := true
	miss := func(c bool, what string) {
		if want && !c {
			want = false
			verifsym.Reach(what)
		}
	}
	miss(b != nil, "unknown")
	miss(!refreshed, "refreshed")
	if want {
		sealed := b.WithMingResult(nonce, common.Hash{7}, nil)
		miss(verifWorkOK(sealed.IHeader(), dd), "work")
		miss(b.NumberU64()+7 > 6+gap, "old")
	}
	verifsym.Assert(ok == want, "submitted work accepted iff it solves what was handed out")
	if want {
		s := <-res
		verifsym.Assert(s.IHeader().SealHash() == hash && s.IHeader().GetNonce() == nonce && s.IHeader().GetMixDigest() == common.Hash{7}, "delivered block")
		verifsym.Assert(e.VerifySeal(nil, s.IHeader(), dd) == nil, "delivered block is refused")
		verifsym.Reach("ok")
	}
}
