package sync

import (
	"errors"
	"math/big"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/rpc"
	qcom "github.com/QuarkChain/goquarkchain/common"
	"github.com/QuarkChain/goquarkchain/core"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/p2p"
	"github.com/QuarkChain/goquarkchain/serialize"
	"github.com/QuarkChain/goquarkchain/verifsym"
	"github.com/ethereum/go-ethereum/common"
)

// verifBC is the chain being synchronised: what it has, and what is done to it.
type verifBC struct {
	has    func(common.Hash) bool
	tip    types.IHeader
	sealed map[common.Hash]bool
	seal   func(types.IHeader) error
	add    func(types.IBlock) error
}

func (b *verifBC) HasBlock(h common.Hash) bool   { return b.has(h) }
func (b *verifBC) AddBlock(x types.IBlock) error { return b.add(x) }
func (b *verifBC) CurrentHeader() types.IHeader  { return b.tip }
func (b *verifBC) Validator() core.Validator     { return &verifVal{b: b} }

func (b *verifBC) AddValidatedMinorBlockHeader(common.Hash, *types.TokenBalances) {}
func (b *verifBC) IsMinorBlockValidated(common.Hash) bool                         { return false }

type verifVal struct {
	core.Validator
	b *verifBC
}

func (v *verifVal) ValidateSeal(h types.IHeader, _ bool) error {
	b := v.b
	if err := b.seal(h); err != nil {
		return err
	}
	b.sealed[h.Hash()] = true
	return nil
}

func verifRootH(n uint32, parent common.Hash, salt byte) *types.RootBlockHeader {
	return &types.RootBlockHeader{Number: n, ParentHash: parent, Difficulty: big.NewInt(1), ToTalDifficulty: big.NewInt(int64(n) + 1), CoinbaseAmount: types.NewEmptyTokenBalances(), Extra: []byte{salt}}
}

func verifMinorH(n uint64, parent common.Hash, salt byte) *types.MinorBlockHeader {
	return &types.MinorBlockHeader{Number: n, Branch: account.Branch{Value: 1}, ParentHash: parent, Difficulty: big.NewInt(1), CoinbaseAmount: types.NewEmptyTokenBalances(), GasLimit: &serialize.Uint256{Value: new(big.Int)}, Extra: []byte{salt}}
}

// verifPeer answers as told.
type verifPeer struct {
	roots  func(*p2p.GetRootBlockHeaderListWithSkipRequest) (*p2p.GetRootBlockHeaderListResponse, error)
	minors func(*rpc.GetMinorBlockHeaderListWithSkipRequest) ([]*types.MinorBlockHeader, error)
	blocks func([]common.Hash) ([]*types.RootBlock, error)
	mblks  func([]common.Hash) ([]*types.MinorBlock, error)
}

func (p *verifPeer) GetRootBlockHeaderList(r *p2p.GetRootBlockHeaderListWithSkipRequest) (*p2p.GetRootBlockHeaderListResponse, error) {
	return p.roots(r)
}
func (p *verifPeer) GetRootBlockList(h []common.Hash) ([]*types.RootBlock, error) { return p.blocks(h) }
func (p *verifPeer) RootHead() *types.RootBlockHeader                             { return nil }
func (p *verifPeer) PeerID() string                                               { return "p" }
func (p *verifPeer) GetMinorBlockHeaderList(r *rpc.GetMinorBlockHeaderListWithSkipRequest) ([]*types.MinorBlockHeader, error) {
	return p.minors(r)
}
func (p *verifPeer) GetMinorBlockList(h []common.Hash, _ uint32) ([]*types.MinorBlock, error) {
	return p.mblks(h)
}

func verifRange(start, skip, limit uint64, tip uint64) (ns []uint64) {
	for n := start; n <= tip && uint64(len(ns)) < limit; n += skip + 1 {
		ns = append(ns, n)
	}
	return
}

// verifShape chooses the heights of the local and the peer's tip, how far back a fork may
// start, and (symbolically) the last block both have.
func verifShape(limit uint64) (local, remote, stale, fork uint64) {
	switch verifsym.Choose("shape", 3) {
	case 0:
		local, stale = uint64(verifsym.Choose("local", 5)), 3
		remote = local + 2 - uint64(verifsym.Choose("remote", 3))
	case 1:
		local, stale, remote = 12, 8, 13
	case 2: // more than one header list is needed, with gaps
		stale = limit + 1 + uint64(verifsym.Choose("more", 2))*limit
		local = stale + 1
		remote = local + uint64(verifsym.Choose("remote", 2))
	}
	hi := local
	if remote < hi {
		hi = remote
	}
	fork = verifsym.U64r("fork", 0, hi)
	if verifsym.Bound("all", 0, 1) == 0 {
		verifsym.Assume(fork+8 >= hi || fork <= 4)
	}
	return
}

// With a peer that answers truthfully, synchronisation starts from the last block that
// both have, wherever it is; if that is too far back or unknown nothing is done.
//
//verif:harness V22 time=100 ttime=600 paths=20000 steps=2000000000 reach=found,toofar
//verif:bounds local root chains of height 0..4, 12 and up to 1002 with the last common block anywhere (for the long ones: near either end; thorough: anywhere), staleness limits 3, 8 and up to 1001, so that several header lists with gaps are needed
func VerifH_V22_RootAncestor() {
	local, remote, stale, fork := verifShape(RootBlockHeaderListLimit)
	var hs []*types.RootBlockHeader
	at := map[common.Hash]uint64{}
	var prev common.Hash
	for n := uint64(0); n <= remote; n++ {
		h := verifRootH(uint32(n), prev, 0)
		prev = h.Hash()
		hs, at[prev] = append(hs, h), n
	}
	bc := &verifBC{tip: verifRootH(uint32(local), common.Hash{1}, 1), has: func(h common.Hash) bool {
		n, ok := at[h]
		return ok && n <= fork
	}}
	if local <= remote && fork == local {
		bc.tip = hs[local]
	}
	p := &verifPeer{roots: func(r *p2p.GetRootBlockHeaderListWithSkipRequest) (*p2p.GetRootBlockHeaderListResponse, error) {
		verifsym.Assert(r.Limit > 0 && r.Limit <= RootBlockHeaderListLimit && r.Direction == qcom.DirectionToTip, "a request that peers answer")
		resp := &p2p.GetRootBlockHeaderListResponse{RootTip: hs[remote]}
		for _, n := range verifRange(uint64(*r.GetHeight()), uint64(r.Skip), uint64(r.Limit), remote) {
			resp.BlockHeaderList = append(resp.BlockHeaderList, hs[n])
		}
		return resp, nil
	}}
	t := NewRootChainTask(p, hs[remote], &BlockSychronizerStats{}, nil, nil).(*rootChainTask)
	t.maxSyncStaleness = stale
	a, err := t.task.findAncestor(bc)
	got := err == nil && !qcom.IsNil(a)
	if fork >= remote {
		verifsym.Assert(!got && err == nil, "nothing to do if the block is there")
		return
	}
	if fork+stale < local {
		verifsym.Reach("toofar")
		verifsym.Assert(!got, "a common block that is too far back")
		return
	}
	verifsym.Reach("found")
	verifsym.Assert(got, "the last common block is found")
	verifsym.Assert(a.NumberU64() == fork, "it is the last common block")
	if remote > 20 || remote <= local {
		return
	}
	next, got2 := fork+1, map[common.Hash]bool{}
	was := bc.has
	bc.has = func(h common.Hash) bool { return was(h) || got2[h] }
	bc.sealed, bc.seal = map[common.Hash]bool{}, func(types.IHeader) error { return nil }
	p.blocks = func(hashes []common.Hash) (r []*types.RootBlock, err error) {
		for _, h := range hashes {
			r = append(r, types.NewRootBlockWithHeader(hs[at[h]]))
		}
		return
	}
	bc.add = func(b types.IBlock) error {
		verifsym.Assert(b.NumberU64() == next && at[b.Hash()] == next, "the peer's blocks are added in order")
		got2[b.Hash()], next = true, next+1
		return nil
	}
	verifsym.Assert(t.Run(bc) == nil && next == remote+1, "the peer's chain is there at the end")
}

// The same for a shard.
//
//verif:harness V22 time=100 ttime=600 paths=20000 steps=2000000000 reach=found,toofar
//verif:bounds local shard chains of height 0..4, 12 and up to 202 with the last common block anywhere (for the long ones: near either end; thorough: anywhere), staleness limits 3, 8 and up to 201
func VerifH_V22_MinorAncestor() {
	local, remote, stale, fork := verifShape(MinorBlockHeaderListLimit)
	var hs []*types.MinorBlockHeader
	at := map[common.Hash]uint64{}
	var prev common.Hash
	for n := uint64(0); n <= remote; n++ {
		h := verifMinorH(n, prev, 0)
		prev = h.Hash()
		hs, at[prev] = append(hs, h), n
	}
	bc := &verifBC{tip: verifMinorH(local, common.Hash{1}, 1), has: func(h common.Hash) bool {
		n, ok := at[h]
		return ok && n <= fork
	}}
	if local <= remote && fork == local {
		bc.tip = hs[local]
	}
	p := &verifPeer{minors: func(r *rpc.GetMinorBlockHeaderListWithSkipRequest) (resp []*types.MinorBlockHeader, err error) {
		verifsym.Assert(r.Limit > 0 && r.Limit <= MinorBlockHeaderListLimit && r.Direction == qcom.DirectionToTip && r.Branch.Value == 1, "a request that peers answer")
		for _, n := range verifRange(*r.GetHeight(), uint64(r.Skip), uint64(r.Limit), remote) {
			resp = append(resp, hs[n])
		}
		return resp, nil
	}}
	t := NewMinorChainTask(p, hs[remote]).(*minorChainTask)
	t.maxSyncStaleness = stale
	a, err := t.task.findAncestor(bc)
	got := err == nil && !qcom.IsNil(a)
	if fork >= remote {
		verifsym.Assert(!got && err == nil, "nothing to do if the block is there")
		return
	}
	if fork+stale < local {
		verifsym.Reach("toofar")
		verifsym.Assert(!got, "a common block that is too far back")
		return
	}
	verifsym.Reach("found")
	verifsym.Assert(got, "the last common block is found")
	verifsym.Assert(a.NumberU64() == fork, "it is the last common block")
	if remote > 20 || remote <= local {
		return
	}
	next, got2 := fork+1, map[common.Hash]bool{}
	was := bc.has
	bc.has = func(h common.Hash) bool { return was(h) || got2[h] }
	bc.sealed, bc.seal = map[common.Hash]bool{}, func(types.IHeader) error { return nil }
	p.mblks = func(hashes []common.Hash) (r []*types.MinorBlock, err error) {
		for _, h := range hashes {
			r = append(r, types.NewMinorBlockWithHeader(hs[at[h]], &types.MinorBlockMeta{}))
		}
		return
	}
	bc.add = func(b types.IBlock) error {
		verifsym.Assert(b.NumberU64() == next && at[b.Hash()] == next, "the peer's blocks are added in order")
		got2[b.Hash()], next = true, next+1
		return nil
	}
	verifsym.Assert(t.Run(bc) == nil && next == remote+1, "the peer's chain is there at the end")
}

// With a peer that answers truthfully, a run ends with the peer's chain added block by
// block in order; with one that answers anything, a run ends without a crash, and only
// blocks whose headers are linked to a known block and carry valid work are asked for.
//
//verif:harness V22 time=100 ttime=600 paths=60000 steps=2000000000 reach=synced,refused
//verif:bounds local root chain of height 2, staleness limit 1 or 9, announced header at any height and any total difficulty up to 255; two (thorough three) header lists of up to 2 headers, each any of four (known, following, or unlinked at height 0, 2 or 2^32-1) and each with valid work or not, tips at any height with such a total difficulty; then no more answers
func VerifH_V22_RootAnswers() {
	known := []*types.RootBlockHeader{verifRootH(0, common.Hash{}, 0)}
	for i := uint32(1); i < 3; i++ {
		known = append(known, verifRootH(i, known[i-1].Hash(), 0))
	}
	n3 := verifRootH(3, known[2].Hash(), 0)
	n4 := verifRootH(4, n3.Hash(), 0)
	ann := verifRootH(verifsym.U32("height"), common.Hash{9}, 9)
	ann.ToTalDifficulty = verifsym.Big("td", new(big.Int), big.NewInt(255))
	mode := verifsym.Choose("mode", 5)
	set := []*types.RootBlockHeader{known[2], n3, n4, verifRootH([]uint32{2, 2, 0, 2, 1<<32 - 1}[mode], common.Hash{5}, 5)}
	has := map[common.Hash]bool{}
	for _, h := range known {
		has[h.Hash()] = true
	}
	bc := &verifBC{tip: known[2], sealed: map[common.Hash]bool{}, has: func(h common.Hash) bool { return has[h] }}
	bad := []int{0, 0, 0, 1, 2}[mode]
	bc.seal = func(h types.IHeader) error {
		if bad == 1 && h.Hash() == n4.Hash() || bad == 2 && h.Hash() == n3.Hash() {
			return errors.New("work")
		}
		return nil
	}
	answers := 0
	parents := map[common.Hash]common.Hash{}
	p := &verifPeer{roots: func(r *p2p.GetRootBlockHeaderListWithSkipRequest) (*p2p.GetRootBlockHeaderListResponse, error) {
		if answers++; answers > verifsym.Bound("answers", 2, 3) {
			return nil, errors.New("no answer")
		}
		tip := verifRootH(verifsym.U32("tip"), common.Hash{7}, 7)
		tip.ToTalDifficulty = verifsym.Big("tiptd", new(big.Int), big.NewInt(255))
		resp := &p2p.GetRootBlockHeaderListResponse{RootTip: tip}
		for i, k := 0, verifsym.Choose("len", 3); i < k; i++ {
			h := set[verifsym.Choose("header", len(set))]
			parents[h.Hash()] = h.ParentHash
			resp.BlockHeaderList = append(resp.BlockHeaderList, h)
		}
		return resp, nil
	}, blocks: func(hs []common.Hash) (r []*types.RootBlock, err error) {
		prev := common.Hash{}
		for i, h := range hs {
			verifsym.Assert(bc.sealed[h], "a block without valid work is asked for")
			if i > 0 {
				verifsym.Assert(parents[h] == prev, "blocks that do not follow one another are asked for")
			} else {
				verifsym.Assert(has[parents[h]], "a block that does not follow a known one is asked for")
			}
			prev = h
		}
		for _, h := range []*types.RootBlockHeader{n3, n4} {
			for _, x := range hs {
				if x == h.Hash() {
					r = append(r, types.NewRootBlockWithHeader(h))
				}
			}
		}
		return r, nil
	}}
	bc.add = func(b types.IBlock) error {
		verifsym.Assert(has[b.ParentHash()] && !has[b.Hash()], "blocks are added in order")
		has[b.Hash()] = true
		bc.tip = b.IHeader()
		return nil
	}
	t := NewRootChainTask(p, ann, &BlockSychronizerStats{}, nil, nil).(*rootChainTask)
	t.maxSyncStaleness = []uint64{1, 9, 9, 9, 9}[mode]
	err := t.Run(bc)
	if bc.tip == types.IHeader(known[2]) {
		verifsym.Reach("refused")
	} else {
		verifsym.Reach("synced")
		verifsym.Assert(bad != 2 && (bad != 1 || bc.tip.NumberU64() == 3), "a block without valid work was added")
	}
	_ = err
}

// The same for a shard.
//
//verif:harness V22 time=100 ttime=600 paths=60000 steps=2000000000 reach=synced,refused
//verif:bounds local shard chain of height 2, staleness limit 1 or 9, announced header at any height; two (thorough three) header lists of up to 3 headers, each any of four (known, following, or unlinked at height 0, 2 or 2^64-1) and each with valid work or not; then no more answers
func VerifH_V22_MinorAnswers() {
	known := []*types.MinorBlockHeader{verifMinorH(0, common.Hash{}, 0)}
	for i := uint64(1); i < 3; i++ {
		known = append(known, verifMinorH(i, known[i-1].Hash(), 0))
	}
	n3 := verifMinorH(3, known[2].Hash(), 0)
	n4 := verifMinorH(4, n3.Hash(), 0)
	ann := verifMinorH(verifsym.U64("height"), common.Hash{9}, 9)
	mode := verifsym.Choose("mode", 5)
	set := []*types.MinorBlockHeader{known[2], n3, n4, verifMinorH([]uint64{2, 2, 0, 2, 1<<64 - 1}[mode], common.Hash{5}, 5)}
	has := map[common.Hash]bool{}
	for _, h := range known {
		has[h.Hash()] = true
	}
	bc := &verifBC{tip: known[2], sealed: map[common.Hash]bool{}, has: func(h common.Hash) bool { return has[h] }}
	bad := []int{0, 0, 0, 1, 2}[mode]
	bc.seal = func(h types.IHeader) error {
		if bad == 1 && h.Hash() == n4.Hash() || bad == 2 && h.Hash() == n3.Hash() {
			return errors.New("work")
		}
		return nil
	}
	answers := 0
	parents := map[common.Hash]common.Hash{}
	p := &verifPeer{minors: func(r *rpc.GetMinorBlockHeaderListWithSkipRequest) (hs []*types.MinorBlockHeader, err error) {
		if answers++; answers > verifsym.Bound("answers", 2, 3) {
			return nil, errors.New("no answer")
		}
		for i, k := 0, verifsym.Choose("len", 4); i < k; i++ {
			h := set[verifsym.Choose("header", len(set))]
			parents[h.Hash()] = h.ParentHash
			hs = append(hs, h)
		}
		return hs, nil
	}, mblks: func(hs []common.Hash) (r []*types.MinorBlock, err error) {
		prev := common.Hash{}
		for i, h := range hs {
			verifsym.Assert(bc.sealed[h], "a block without valid work is asked for")
			if i > 0 {
				verifsym.Assert(parents[h] == prev, "blocks that do not follow one another are asked for")
			} else {
				verifsym.Assert(has[parents[h]], "a block that does not follow a known one is asked for")
			}
			prev = h
		}
		for _, h := range []*types.MinorBlockHeader{n3, n4} {
			for _, x := range hs {
				if x == h.Hash() {
					r = append(r, types.NewMinorBlockWithHeader(h, &types.MinorBlockMeta{}))
				}
			}
		}
		return r, nil
	}}
	bc.add = func(b types.IBlock) error {
		verifsym.Assert(has[b.ParentHash()] && !has[b.Hash()], "blocks are added in order")
		has[b.Hash()] = true
		bc.tip = b.IHeader()
		return nil
	}
	t := NewMinorChainTask(p, ann).(*minorChainTask)
	t.maxSyncStaleness = []uint64{1, 9, 9, 9, 9}[mode]
	_ = t.Run(bc)
	if bc.tip == types.IHeader(known[2]) {
		verifsym.Reach("refused")
	} else {
		verifsym.Reach("synced")
		verifsym.Assert(bad != 2 && (bad != 1 || bc.tip.NumberU64() == 3), "a block without valid work was added")
	}
}
