package slave

//verif:uses core

import (
	"context"
	"math/big"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/cluster/rpc"
	"github.com/QuarkChain/goquarkchain/cluster/shard"
	qsync "github.com/QuarkChain/goquarkchain/cluster/sync"
	qcom "github.com/QuarkChain/goquarkchain/common"
	"github.com/QuarkChain/goquarkchain/core"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/p2p"
	"github.com/QuarkChain/goquarkchain/serialize"
	"github.com/QuarkChain/goquarkchain/verifsym"
	"github.com/ethereum/go-ethereum/common"
)

func verifSlave(n int) (op *SlaveServerSideOp, branch uint32, chain, side []*types.MinorBlock) {
	m, chain, side := core.VerifMinorForks(n)
	branch = chain[0].Branch().Value
	s := &SlaveBackend{config: &config.SlaveConfig{ID: "S0"}, shards: map[uint32]*shard.ShardBackend{branch: {MinorBlockChain: m}}}
	return NewServerSideOp(s), branch, chain, side
}

// verifAsk sends a request the way the master passes on a peer's.
func verifAsk(f func(context.Context, *rpc.Request) (*rpc.Response, error), branch uint32, req, resp interface{}) error {
	data, err := serialize.SerializeToBytes(req)
	if err != nil {
		panic(err)
	}
	if data, err = serialize.SerializeToBytes(&rpc.P2PRedirectRequest{PeerID: "p", Branch: branch, Data: data}); err != nil {
		panic(err)
	}
	r, err := f(nil, &rpc.Request{Data: data})
	if err != nil {
		return err
	}
	if err := serialize.DeserializeFromBytes(r.Data, resp); err != nil {
		panic(err)
	}
	return nil
}

// The same for a shard's headers.
//
//verif:harness V28 time=60 ttime=300 paths=40000 reach=height,hash,none,bad,unknown
//verif:bounds chain of 3 (thorough 5) minor blocks that replaced a fork of 2, all heights of 256 bits, all hashes, all skips, limits 1 to 4 (thorough 6), the largest and all bad ones, all directions and types
func VerifH_V28_MinorSkip() {
	n := verifsym.Bound("blocks", 3, 5)
	op, branch, chain, side := verifSlave(n)
	req := &p2p.GetMinorBlockHeaderListWithSkipRequest{
		Type: verifsym.U8("type"), Branch: account.Branch{Value: branch}, Limit: uint32(verifsym.Choose("limit", n+3)), Skip: verifsym.U32("skip"), Direction: verifsym.U8("direction"),
	}
	if req.Limit == 0 {
		req.Limit = verifsym.U32("limit?")
		verifsym.Assume(verifsym.Or(req.Limit == 0, uint64(req.Limit) > 2*qsync.MinorBlockHeaderListLimit))
	} else if int(req.Limit) == n+2 {
		req.Limit = 2 * qsync.MinorBlockHeaderListLimit
	}
	start := -1 // block asked for by hash
	var height *big.Int
	known := true
	switch verifsym.Choose("data", 4) {
	case 0:
		height = verifsym.Big("height", new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1)))
		req.Data = common.BigToHash(height)
		verifsym.Assume(req.Type != qcom.SkipHash)
	case 1:
		start = verifsym.Choose("block", len(chain))
		req.Data = chain[start].Hash()
		verifsym.Assume(req.Type == qcom.SkipHash)
	case 2:
		// the fork's headers are told going down one by one (see Headers), nothing else is of it
		req.Data = side[verifsym.Choose("side", len(side))].Hash()
		verifsym.Assume(req.Type == qcom.SkipHash)
		verifsym.Assume(verifsym.Or(req.Skip != 0, req.Direction != qcom.DirectionToGenesis))
		known = false
	default:
		req.Data = common.Hash{1}
		verifsym.Assume(req.Type == qcom.SkipHash)
		known = false
	}
	var resp p2p.GetMinorBlockHeaderListResponse
	err := verifAsk(op.GetMinorBlockHeaderListWithSkip, branch, req, &resp)
	good := verifsym.And(req.Limit >= 1, uint64(req.Limit) <= 2*qsync.MinorBlockHeaderListLimit)
	good = verifsym.And(good, req.Direction <= 1)
	good = verifsym.And(good, req.Type <= 1)
	good = verifsym.And(good, known)
	verifsym.Assert(verifsym.Iff(err == nil, good), "a bad request, and only a bad one, is refused")
	if err != nil {
		verifsym.Reach("bad")
		if !known {
			verifsym.Reach("unknown")
		}
		return
	}
	var want []int
	if height != nil {
		for i := range chain {
			if height.Cmp(big.NewInt(int64(i))) == 0 {
				start = i
			}
		}
	}
	if start >= 0 {
		step := uint64(req.Skip) + 1
		for k := 0; k <= n; k++ {
			off := uint64(k) * step
			if uint32(k) >= req.Limit {
				break
			}
			if req.Direction == qcom.DirectionToGenesis {
				if off > uint64(start) {
					break
				}
				want = append(want, start-int(verifsym.ConcreteU64(off)))
			} else {
				if uint64(start)+off > uint64(n) {
					break
				}
				want = append(want, start+int(verifsym.ConcreteU64(off)))
			}
		}
	}
	verifsym.Assert(len(resp.BlockHeaderList) == len(want), "number of headers")
	for i, h := range want {
		verifsym.Assert(resp.BlockHeaderList[i].Hash() == chain[h].Hash(), "header at the height asked for")
	}
	switch {
	case height != nil && len(want) > 1:
		verifsym.Reach("height")
	case height == nil && len(want) > 1:
		verifsym.Reach("hash")
	case height != nil && len(want) == 0:
		verifsym.Reach("none")
	}
}

//verif:harness V28 time=60 ttime=120 reach=headers,genesis,bad,unknown
//verif:bounds chain of 3 minor blocks that replaced a fork of 2, all blocks of both, all limits that are refused and 1 to 5 or the largest of those that are not, all directions, both kinds of request
func VerifH_V28_MinorHeaders() {
	n := 3
	op, branch, chain, side := verifSlave(n)
	limit, dir := uint32(verifsym.Choose("limit", n+4)), verifsym.U8("direction")
	if limit == 0 {
		limit = verifsym.U32("limit?")
		verifsym.Assume(verifsym.Or(limit == 0, uint64(limit) > 2*qsync.MinorBlockHeaderListLimit))
	} else if int(limit) == n+3 {
		limit = 2 * qsync.MinorBlockHeaderListLimit
	}
	var line []*types.MinorBlock
	switch verifsym.Choose("hash", 3) {
	case 0:
		line = chain[:verifsym.Choose("block", len(chain))+1]
	case 1:
		line = append(chain[:1:1], side[:verifsym.Choose("side", len(side))+1]...)
	}
	hash := common.Hash{1}
	if line != nil {
		hash = line[len(line)-1].Hash()
	}
	var resp p2p.GetMinorBlockHeaderListResponse
	var err error
	if verifsym.Choose("with skip", 2) == 0 {
		err = verifAsk(op.GetMinorBlockHeaderList, branch, &p2p.GetMinorBlockHeaderListRequest{BlockHash: hash, Branch: account.Branch{Value: branch}, Limit: limit, Direction: dir}, &resp)
	} else {
		verifsym.Assume(dir != qcom.DirectionToTip)
		err = verifAsk(op.GetMinorBlockHeaderListWithSkip, branch, &p2p.GetMinorBlockHeaderListWithSkipRequest{Type: qcom.SkipHash, Data: hash, Branch: account.Branch{Value: branch}, Limit: limit, Direction: dir}, &resp)
	}
	good := verifsym.And(limit >= 1, uint64(limit) <= 2*qsync.MinorBlockHeaderListLimit)
	good = verifsym.And(good, dir == qcom.DirectionToGenesis)
	good = verifsym.And(good, line != nil)
	verifsym.Assert(verifsym.Iff(err == nil, good), "a bad request, and only a bad one, is refused")
	if err != nil {
		verifsym.Reach("bad")
		if line == nil {
			verifsym.Reach("unknown")
		}
		return
	}
	want := len(line)
	if uint32(want) > limit {
		want = int(limit)
		verifsym.Reach("headers")
	} else {
		verifsym.Reach("genesis")
	}
	verifsym.Assert(len(resp.BlockHeaderList) == want, "number of headers")
	for i, h := range resp.BlockHeaderList {
		verifsym.Assert(h.Hash() == line[len(line)-1-i].Hash(), "header below the one before")
	}
}

//verif:harness V28 time=60 ttime=120 reach=all,refused,bad,shard
//verif:bounds lists of 0 to 2 (thorough 3) hashes, each of a block of the chain or of the fork, zero, or one that agrees with one of them in all but its last 8 bytes, whatever those are; lists of 200 and 201 hashes; another shard
func VerifH_V28_MinorBlocks() {
	op, branch, chain, side := verifSlave(3)
	blocks := append(chain[:len(chain):len(chain)], side...)
	req := &p2p.GetMinorBlockListRequest{}
	var resp p2p.GetMinorBlockListResponse
	var want []*types.MinorBlock
	most := verifsym.Bound("len", 2, 3)
	n := verifsym.Choose("len", most+4)
	if n == most+3 {
		b := verifsym.U32("branch")
		verifsym.Assume(b != branch)
		err := verifAsk(op.GetMinorBlockList, b, req, &resp)
		verifsym.Assert(err != nil, "a shard that is not here is refused")
		verifsym.Reach("shard")
		return
	}
	if n > most {
		for i := 0; i < 2*qsync.MinorBlockBatchSize-most-1+n; i++ {
			req.MinorBlockHashList = append(req.MinorBlockHashList, chain[0].Hash())
		}
		err := verifAsk(op.GetMinorBlockList, branch, req, &resp)
		verifsym.Assert((err == nil) == (n == most+1), "too long a list, and only that, is refused")
		verifsym.Assert(err != nil || len(resp.MinorBlockList) == 2*qsync.MinorBlockBatchSize, "number of blocks")
		verifsym.Reach("bad")
		return
	}
	made := false
	for i := 0; i < n; i++ {
		b := verifsym.Choose("block", len(blocks)+1)
		if b == len(blocks) {
			req.MinorBlockHashList = append(req.MinorBlockHashList, common.Hash{})
			continue
		}
		h := blocks[b].Hash()
		if !made && verifsym.Choose("made up", 2) == 1 {
			made = true
			copy(h[24:], verifsym.BVBytes("hash", 8))
		}
		req.MinorBlockHashList = append(req.MinorBlockHashList, h)
		if h == blocks[b].Hash() {
			want = append(want, blocks[b])
		}
	}
	err := verifAsk(op.GetMinorBlockList, branch, req, &resp)
	verifsym.Assert((err == nil) == (len(want) == n), "a list that names a block that is not here, and only that, is refused")
	if err != nil {
		verifsym.Reach("refused")
		return
	}
	verifsym.Assert(len(resp.MinorBlockList) == len(want), "number of blocks")
	for i, b := range resp.MinorBlockList {
		verifsym.Assert(b.Hash() == want[i].Hash(), "block asked for")
	}
	if n > 0 {
		verifsym.Reach("all")
	}
}
