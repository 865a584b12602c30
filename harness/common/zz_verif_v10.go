package common

import "github.com/QuarkChain/goquarkchain/verifsym"

// every token name of length n over 0-9A-Z round-trips through its id
//
//verif:harness V10 time=60 reach=roundtrip
//verif:bounds all names of length 1..12 over [0-9A-Z]
func VerifH_V10_TokenNameRoundTrip() {
	n := 1 + verifsym.Choose("len", 12)
	b := make([]byte, n)
	for i := range b {
		d := verifsym.U8("c")
		verifsym.Assume(d < 36)
		b[i] = verifTokChar(d)
	}
	id := TokenIDEncode(string(b))
	verifsym.Observe("id", id)
	s, err := TokenIdDecode(id)
	verifsym.Assert(err == nil, "decode of an encoded name fails")
	verifsym.Observe("s", s)
	verifsym.Assert(s == string(b), "name round trip")
	verifsym.Reach("roundtrip")
}

//verif:harness V10 time=60 reach=ok,big
func VerifH_V10_TokenIdRoundTrip() {
	id := verifsym.U64("id")
	s, err := TokenIdDecode(id)
	if err != nil {
		verifsym.Assert(id > TOKENIDMAX, "valid id rejected")
		verifsym.Reach("big")
		return
	}
	verifsym.Observe("s", s)
	verifsym.Assert(len(s) <= 12, "len")
	verifsym.Assert(TokenIDEncode(s) == id, "id round trip")
	verifsym.Reach("ok")
}

func verifTokChar(d byte) byte {
	if d < 10 {
		return '0' + d
	}
	return 'A' + d - 10
}
