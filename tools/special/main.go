// Command special searches inputs on which fixed-width encodings matter: scalars, coordinates and children with
// leading zero bytes.  Its output was pasted into spec/Special.tla once; nothing runs it.
package main

import (
	"crypto/hmac"
	"crypto/sha512"
	"encoding/binary"
	"fmt"
	"math/big"

	"github.com/decred/dcrd/dcrec/secp256k1/v4"
)

func lead(b []byte) int {
	for i, x := range b {
		if x != 0 {
			return i
		}
	}
	return len(b)
}

func main() {
	n := secp256k1.S256().Params().N
	// scalars with short coordinates
	cnt := map[string]int{}
	for k := uint32(1); k < 400000; k++ {
		var s secp256k1.ModNScalar
		s.SetInt(k)
		var p secp256k1.JacobianPoint
		secp256k1.ScalarBaseMultNonConst(&s, &p)
		p.ToAffine()
		x, y := p.X.Bytes(), p.Y.Bytes()
		for nm, b := range map[string][]byte{"x": x[:], "y": y[:]} {
			if l := lead(b); l > 0 {
				id := fmt.Sprint(nm, l)
				if cnt[id]++; cnt[id] <= 4 {
					fmt.Printf("point %s %064x\n", id, k)
				}
			}
		}
	}
	// children with short scalars
	m := hmac.New(sha512.New, []byte("Bitcoin seed"))
	m.Write([]byte{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15})
	I := m.Sum(nil)
	key, cc := new(big.Int).SetBytes(I[:32]), I[32:]
	for i := uint32(0); i < 20000000; i++ {
		d := append(append([]byte{0}, I[:32]...), 0, 0, 0, 0)
		binary.BigEndian.PutUint32(d[33:], i|0x80000000)
		h := hmac.New(sha512.New, cc)
		h.Write(d)
		J := h.Sum(nil)
		s := new(big.Int).SetBytes(J[:32])
		s.Add(s, key).Mod(s, n)
		var b [32]byte
		s.FillBytes(b[:])
		report(cnt, "hard", b[:], J, i|0x80000000)
	}
	par := secp256k1.PrivKeyFromBytes(I[:32]).PubKey().SerializeCompressed()
	for i := uint32(0); i < 300000; i++ {
		d := append(append([]byte{}, par...), 0, 0, 0, 0)
		binary.BigEndian.PutUint32(d[33:], i)
		h := hmac.New(sha512.New, cc)
		h.Write(d)
		J := h.Sum(nil)
		s := new(big.Int).SetBytes(J[:32])
		s.Add(s, key).Mod(s, n)
		var b [32]byte
		s.FillBytes(b[:])
		report(cnt, "soft", b[:], J, i)
		pk := secp256k1.PrivKeyFromBytes(b[:]).PubKey().SerializeUncompressed()
		if l := lead(pk[1:33]); l > 0 {
			id := fmt.Sprint("softx", l)
			if cnt[id]++; cnt[id] <= 4 {
				fmt.Printf("%s %08x\n", id, i)
			}
		}
		if l := lead(pk[33:]); l > 0 {
			id := fmt.Sprint("softy", l)
			if cnt[id]++; cnt[id] <= 4 {
				fmt.Printf("%s %08x\n", id, i)
			}
		}
	}
}

func report(cnt map[string]int, what string, b, J []byte, i uint32) {
	if l := lead(b); l > 0 {
		id := fmt.Sprint(what, l)
		if cnt[id]++; cnt[id] <= 4 {
			fmt.Printf("%s %08x\n", id, i)
		}
	}
	if l := lead(J[:32]); l > 0 {
		id := fmt.Sprint(what, "IL", l)
		if cnt[id]++; cnt[id] <= 3 {
			fmt.Printf("%s %08x\n", id, i)
		}
	}
	if l := lead(J[32:]); l > 0 {
		id := fmt.Sprint(what, "cc", l)
		if cnt[id]++; cnt[id] <= 3 {
			fmt.Printf("%s %08x\n", id, i)
		}
	}
}
