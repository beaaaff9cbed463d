// Package rfc holds the definitions of RFC 6962, section 2.1, as recursive functions: the hash of a log,
// inclusion proofs, consistency proofs, and what follows from given proofs.
package rfc

import "crypto/sha256"

func LeafHash(data string) []byte { h := sha256.Sum256([]byte("\x00" + data)); return h[:] }

func Node(l, r []byte) []byte {
	b := make([]byte, 0, 80)
	b = append(append(append(b, 1), l...), r...)
	h := sha256.Sum256(b)
	return h[:]
}

// Split is the largest power of two below n.
func Split(n uint64) uint64 {
	k := uint64(1)
	for k < n-k {
		k *= 2
	}
	return k
}

func MTH(d [][]byte) []byte {
	switch len(d) {
	case 0:
		h := sha256.Sum256(nil)
		return h[:]
	case 1:
		return d[0]
	}
	k := Split(uint64(len(d)))
	return Node(MTH(d[:k]), MTH(d[k:]))
}

func Path(m uint64, d [][]byte) [][]byte {
	if len(d) == 1 {
		return nil
	}
	k := Split(uint64(len(d)))
	if m < k {
		return append(Path(m, d[:k]), MTH(d[k:]))
	}
	return append(Path(m-k, d[k:]), MTH(d[:k]))
}

func Consistency(m uint64, d [][]byte, whole bool) [][]byte {
	n := uint64(len(d))
	if m == n {
		if whole {
			return nil
		}
		return [][]byte{MTH(d)}
	}
	k := Split(n)
	if m <= k {
		return append(Consistency(m, d[:k], whole), MTH(d[k:]))
	}
	return append(Consistency(m-k, d[k:], false), MTH(d[:k]))
}

// Included computes the root that follows from a proof, or nothing when the proof has the wrong shape.
func Included(m, n uint64, leaf []byte, p [][]byte) []byte {
	if n == 1 {
		if len(p) != 0 {
			return nil
		}
		return leaf
	}
	if len(p) == 0 {
		return nil
	}
	k, last := Split(n), p[len(p)-1]
	if m < k {
		if l := Included(m, k, leaf, p[:len(p)-1]); l != nil {
			return Node(l, last)
		}
	} else if r := Included(m-k, n-k, leaf, p[:len(p)-1]); r != nil {
		return Node(last, r)
	}
	return nil
}

// Extends computes the roots of both trees that follow from a consistency proof.
func Extends(m, n uint64, whole bool, root []byte, p [][]byte) (a, b []byte, ok bool) {
	if m == n {
		if whole {
			return root, root, len(p) == 0
		}
		if len(p) != 1 {
			return nil, nil, false
		}
		return p[0], p[0], true
	}
	if len(p) == 0 {
		return nil, nil, false
	}
	k, last := Split(n), p[len(p)-1]
	if m <= k {
		a, b, ok = Extends(m, k, whole, root, p[:len(p)-1])
		if ok {
			b = Node(b, last)
		}
		return
	}
	a, b, ok = Extends(m-k, n-k, false, root, p[:len(p)-1])
	if ok {
		a, b = Node(last, a), Node(last, b)
	}
	return
}
