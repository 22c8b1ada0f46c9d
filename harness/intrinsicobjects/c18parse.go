package intrinsicobjects

import "crypto/sha256"

func c18parse(b []byte) (*Transaction, int) {
	var g Transaction
	n := ParseBinaryTransaction(b, 0, sha256.New(), &g, NewMultiTransactionStorage())
	return &g, n
}
