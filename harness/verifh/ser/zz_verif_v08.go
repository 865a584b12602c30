package ser

import (
	"bytes"
	"math/big"
	"reflect"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/rpc"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/p2p"
	"github.com/QuarkChain/goquarkchain/serialize"
	"github.com/QuarkChain/goquarkchain/verifsym"
)

func roundTrip(samples []interface{}, modes []mode) {
	i := verifsym.Choose("type", len(samples))
	m := modes[verifsym.Choose("shape", len(modes))]
	x := samples[i]
	t := reflect.TypeOf(x)
	if t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	v := reflect.New(t)
	switch v.Type() {
	case tMinor, tRoot, tRcpt, tTok, tTx:
		w := reflect.New(v.Type()).Elem()
		m.fill(w, false, "")
		v = w
	default:
		m.fill(v.Elem(), false, "")
	}
	out, err := serialize.SerializeToBytes(v.Interface())
	verifsym.Assert(err == nil, "a well-formed value of type "+t.Name()+" cannot be encoded")
	verifsym.Observe("bytes", out)
	w := reflect.New(t)
	bb := serialize.NewByteBuffer(out)
	err = serialize.Deserialize(bb, w.Interface())
	verifsym.Assert(err == nil, "the encoding of a "+t.Name()+" cannot be decoded")
	verifsym.Assert(bb.Remaining() == 0, "decoding a "+t.Name()+" does not consume its whole encoding")
	same(v, w, "decoding gives back a different value: "+t.Name())
	out2, err := serialize.SerializeToBytes(w.Interface())
	verifsym.Assert(err == nil && bytes.Equal(out, out2), "re-encoding a decoded "+t.Name()+" gives other bytes")
	verifsym.Reach("ok")
}

var modes = []mode{{}, {n: 1, blen: 1, opt: true}, {n: 2, blen: 9, opt: true}, {n: 1, blen: 32}, {opt: true, long: true, zero: true}}

//verif:harness V08 time=200 reach=ok
//verif:bounds every block-chain structure (transaction, headers, meta, blocks, receipt, log, deposits, cursor, balances), 5 shapes each (lists of 0..2, big numbers of 0/1/9/32 bytes, optionals absent/present, all contents symbolic; and lists of 300 elements with fixed contents)
func VerifH_V08_Chain() {
	roundTrip([]interface{}{
		types.MinorBlockHeader{}, types.MinorBlockMeta{}, types.XShardTxCursorInfo{}, types.RootBlockHeader{}, types.MinorBlock{}, types.RootBlock{},
		types.Transaction{}, types.Receipt{}, types.Log{}, types.CrossShardTransactionDeposit{}, types.CrossShardTransactionDepositList{}, types.TokenBalances{},
		account.Address{}, account.Branch{},
	}, modes)
}

//verif:harness V08 time=200 reach=ok
//verif:bounds every peer-to-peer command body, same shapes
func VerifH_V08_P2P() {
	roundTrip([]interface{}{
		p2p.HelloCmd{}, p2p.Tip{}, p2p.NewTransactionList{}, p2p.GetPeerListRequest{}, p2p.GetPeerListResponse{}, p2p.GetRootBlockHeaderListRequest{},
		p2p.GetRootBlockHeaderListResponse{}, p2p.GetRootBlockListRequest{}, p2p.GetRootBlockListResponse{}, p2p.GetMinorBlockListRequest{}, p2p.GetMinorBlockListResponse{},
		p2p.GetMinorBlockHeaderListRequest{}, p2p.GetMinorBlockHeaderListResponse{}, p2p.NewBlockMinor{}, p2p.PingPongCommand{}, p2p.NewRootBlockCommand{},
		p2p.GetRootBlockHeaderListWithSkipRequest{}, p2p.GetMinorBlockHeaderListWithSkipRequest{},
	}, modes)
}

//verif:harness V08 time=300 reach=ok
//verif:bounds every intra-cluster (master/slave) request and response body, same shapes
func VerifH_V08_Cluster() {
	roundTrip([]interface{}{
		rpc.Ping{}, rpc.Pong{}, rpc.SlaveInfo{}, rpc.ShardStatus{}, rpc.ConnectToSlavesRequest{}, rpc.ConnectToSlavesResponse{}, rpc.MasterInfo{}, rpc.MineRequest{}, rpc.GenTxRequest{},
		rpc.GetMinorBlockRequest{}, rpc.PoSWInfo{}, rpc.GetMinorBlockHeaderListWithSkipRequest{}, rpc.GetMinorBlockResponse{}, rpc.GetMinorBlockListRequest{}, rpc.GetMinorBlockListResponse{},
		rpc.BroadcastMinorBlock{}, rpc.BroadcastTransactions{}, rpc.MinorHeadRequest{}, rpc.GetMinorBlockHeaderListResponse{}, rpc.BroadcastNewTip{}, rpc.GetTransactionRequest{}, rpc.GetTransactionResponse{},
		rpc.ExecuteTransactionRequest{}, rpc.ExecuteTransactionResponse{}, rpc.GetTransactionReceiptResponse{}, rpc.GetTransactionListByAddressRequest{}, rpc.GetTxDetailResponse{}, rpc.GetAllTxRequest{},
		rpc.AddRootBlockRequest{}, rpc.AddRootBlockResponse{}, rpc.GetEcoInfoListResponse{}, rpc.GetNextBlockToMineRequest{}, rpc.GetNextBlockToMineResponse{}, rpc.AddMinorBlockRequest{}, rpc.GetUnconfirmedHeadersResponse{},
		rpc.GetAccountDataRequest{}, rpc.GetAccountDataResponse{}, rpc.AddTransactionRequest{}, rpc.AddMinorBlockHeaderRequest{}, rpc.AddMinorBlockHeaderResponse{}, rpc.AddMinorBlockHeaderListRequest{},
		rpc.AddXshardTxListRequest{}, rpc.BatchAddXshardTxListRequest{}, rpc.AddBlockListForSyncRequest{}, rpc.AddBlockListForSyncResponse{}, rpc.HandleNewTipRequest{}, rpc.GetLogResponse{}, rpc.EstimateGasRequest{},
		rpc.EstimateGasResponse{}, rpc.GetStorageRequest{}, rpc.GetStorageResponse{}, rpc.GetCodeRequest{}, rpc.GetCodeResponse{}, rpc.GasPriceRequest{}, rpc.GasPriceResponse{}, rpc.GetWorkRequest{}, rpc.GetWorkResponse{},
		rpc.SubmitWorkRequest{}, rpc.SubmitWorkResponse{}, rpc.PeerInfoForDisPlay{}, rpc.GetRootChainStakesRequest{}, rpc.GetRootChainStakesResponse{}, rpc.P2PRedirectRequest{},
	}, modes)
}

// Fixed-width big numbers: every value, whatever its byte length.
//verif:harness V08 time=60 reach=ok,big
//verif:bounds every non-negative value below 2^264
func VerifH_V08_FixedBig() {
	x := fixed("x", 264)
	var err error
	var out []byte
	bits := 256
	var y *big.Int
	var rem int
	if verifsym.Choose("width", 2) == 0 {
		out, err = serialize.SerializeToBytes(&serialize.Uint256{Value: x})
		var d serialize.Uint256
		if err == nil {
			bb := serialize.NewByteBuffer(out)
			verifsym.Assert(serialize.Deserialize(bb, &d) == nil, "a fixed-width number cannot be read back")
			y, rem = d.Value, bb.Remaining()
		}
	} else {
		bits = 128
		out, err = serialize.SerializeToBytes(&serialize.Uint128{Value: x})
		var d serialize.Uint128
		if err == nil {
			bb := serialize.NewByteBuffer(out)
			verifsym.Assert(serialize.Deserialize(bb, &d) == nil, "a fixed-width number cannot be read back")
			y, rem = d.Value, bb.Remaining()
		}
	}
	if err != nil {
		verifsym.Reach("big")
		verifsym.Assert(x.BitLen() > bits, "a number that fits is refused")
		return
	}
	verifsym.Reach("ok")
	verifsym.Assert(rem == 0 && len(out) == bits/8 && x.Cmp(y) == 0, "a fixed-width number is read back differently")
}

// The envelope of a peer-to-peer message.
//verif:harness V08 time=60 reach=ok,short
//verif:bounds any branch, opcode, request id; bodies of 0..3 symbolic bytes; any 0..16 byte frame
func VerifH_V08_Envelope() {
	if verifsym.Choose("dir", 2) == 0 {
		b := verifsym.Bytes("body", verifsym.Choose("n", 4))
		br, op, id := verifsym.U32("branch"), verifsym.U8("op"), verifsym.U64("id")
		out, err := p2p.Encrypt(p2p.Metadata{Branch: br}, p2p.P2PCommandOp(op), id, b)
		verifsym.Assert(err == nil, "a message cannot be framed")
		m, err := p2p.DecodeQKCMsg(out)
		verifsym.Assert(err == nil, "a framed message cannot be read back")
		verifsym.Assert(m.MetaData.Branch == br && byte(m.Op) == op && m.RpcID == id && bytes.Equal(m.Data, b), "a framed message is read back differently")
		verifsym.Reach("ok")
		return
	}
	f := verifsym.Bytes("frame", verifsym.Choose("len", 17))
	m, err := p2p.DecodeQKCMsg(f)
	verifsym.Assert((err != nil) == (len(f) < 13), "a frame is refused although long enough, or accepted although truncated")
	if err != nil {
		verifsym.Reach("short")
		return
	}
	out, err := p2p.Encrypt(m.MetaData, m.Op, m.RpcID, m.Data)
	verifsym.Assert(err == nil && bytes.Equal(out, f), "a received frame does not re-encode to itself")
}

func arbitrary(samples []interface{}, sizes []int) {
	i := verifsym.Choose("type", len(samples))
	t := reflect.TypeOf(samples[i])
	b := verifsym.Bytes("b", sizes[verifsym.Choose("size", len(sizes))])
	w := reflect.New(t)
	bb := serialize.NewByteBuffer(b)
	if err := serialize.Deserialize(bb, w.Interface()); err != nil {
		verifsym.Reach("refused")
		return
	}
	verifsym.Reach("ok")
	verifsym.Assert(bb.Remaining() >= 0 && bb.GetOffset() <= len(b), "decoding read past the end of the input")
	out, err := serialize.SerializeToBytes(w.Interface())
	verifsym.Assert(err == nil, "a decoded "+t.Name()+" cannot be encoded")
	w2 := reflect.New(t)
	bb = serialize.NewByteBuffer(out)
	verifsym.Assert(serialize.Deserialize(bb, w2.Interface()) == nil && bb.Remaining() == 0, "a decoded "+t.Name()+" does not survive re-encoding")
	out2, err := serialize.SerializeToBytes(w2.Interface())
	verifsym.Assert(err == nil && bytes.Equal(out, out2), "a decoded "+t.Name()+" does not survive re-encoding")
}

//verif:harness V08 time=200 paths=20000 reach=ok,refused
//verif:bounds arbitrary byte strings of length 0..9 and up to 60 decoded as each of 12 message types whose layout is variable
func VerifH_V08_Arbitrary() {
	arbitrary([]interface{}{
		types.XShardTxCursorInfo{}, types.TokenBalances{}, types.CrossShardTransactionDepositList{}, p2p.GetPeerListResponse{},
		p2p.GetRootBlockListRequest{}, rpc.ConnectToSlavesRequest{}, rpc.PoSWInfo{}, rpc.GetAccountDataRequest{},
		rpc.Ping{}, rpc.SubmitWorkResponse{}, rpc.GetWorkRequest{}, rpc.P2PRedirectRequest{},
	}, []int{0, 1, 4, 5, 6, 7, 9})
}
