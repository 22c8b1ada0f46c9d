package indexedhashes

import (
	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

func c11isHex(c byte) bool {
	return vf.Or(vf.Or(vf.And(c >= '0', c <= '9'), vf.And(c >= 'a', c <= 'f')), vf.And(c >= 'A', c <= 'F'))
}

// VH_C11_RoundTrip: every 32-byte hash: its text has 64 digits, most significant byte first, and converts back to the hash; equal texts come from equal hashes.
//
//vf:ite=70000 decs=3000
func VH_C11_RoundTrip() {
	h := Sha256(vf.Hash("h"))
	s := HashSha256ToHexString(&h)
	vf.Assert(len(s) == 64, "64 digits")
	const digits = "0123456789abcdef"
	for i := 0; i < 32; i++ {
		vf.Assert(vf.And(s[2*i] == digits[h[31-i]>>4], s[2*i+1] == digits[h[31-i]&15]), "text is the hash's bytes in reverse order")
	}
	var back Sha256
	vf.NoErr(HashHexToSha256(s, &back), "converting back")
	for i := range h {
		vf.Assert(back[i] == h[i], "a hash survives conversion to text and back")
	}
	h2 := [32]byte(h)
	s2 := hashBinToHexString(&h2)
	vf.Assert(s2 == s, "both conversions agree")
	b2, err := hashHexToBin(s)
	vf.NoErr(err, "converting back")
	for i := range h {
		vf.Assert(b2[i] == h[i], "a hash survives conversion to text and back")
	}
	vf.Reach("roundtrip")
}

// VH_C11_Chars: 64 characters all '3' but one or two arbitrary ones at any positions: hexadecimal digits of either case are accepted with their value, anything else is an error.
//
//vf:ite=70000 enum=300
func VH_C11_Chars() {
	t := make([]byte, 64)
	for i := range t {
		t[i] = '3'
	}
	at := vf.Pick("at", 0, 63)
	c, d := vf.U8("c"), vf.U8("d")
	t[at], t[at^1] = c, d
	ok := vf.And(c11isHex(c), c11isHex(d))
	var h Sha256
	err := HashHexToSha256(string(t), &h)
	vf.Assert((err == nil) == ok, "text is accepted exactly when all of it is hexadecimal digits")
	b, err2 := hashHexToBin(string(t))
	vf.Assert((err2 == nil) == ok, "text is accepted exactly when all of it is hexadecimal digits")
	if ok {
		vf.Assert(Sha256(b) == h, "both conversions agree")
		nib := func(c byte) byte {
			return byte(vf.IteU(c <= '9', uint64(c)-'0', uint64(c|0x20)-'a'+10))
		}
		want := nib(c)<<4 | nib(d)
		if at&1 == 1 {
			want = nib(d)<<4 | nib(c)
		}
		for i := range h {
			if i == 31-at/2 {
				vf.Assert(h[i] == want, "digits have their value")
			} else {
				vf.Assert(h[i] == 0x33, "digits have their value")
			}
		}
		vf.Reach("valid")
	} else {
		vf.Reach("invalid")
	}
}

// VH_C11_Length: text of any length 0..70 (thorough 0..200) other than 64 is an error, whatever its first and last characters are.
//
//vf:ite=70000
func VH_C11_Length() {
	n := vf.Pick("n", 0, vf.Tier(70, 200))
	t := make([]byte, n)
	for i := range t {
		t[i] = 'a'
	}
	if n > 0 {
		t[0], t[n-1] = vf.U8("c"), vf.U8("c")
	}
	var h Sha256
	err := HashHexToSha256(string(t), &h)
	_, err2 := hashHexToBin(string(t))
	if n != 64 {
		vf.Assert(err != nil && err2 != nil, "text of the wrong length is an error")
	}
	vf.Reach("length")
}
