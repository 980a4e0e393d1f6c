package main

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"strings"

	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/bip39"
	"github.com/mearaj/bips/bip39/wordlists"
	"github.com/mearaj/bips/util"
)

// world holds the objects a caller of the library owns.  Their names in plans and traces are k0.. (keys), b0..
// (byte buffers, shown with their whole backing array), g0.. (generators), r0.. (ranges), l0.. (key lists) and
// w0.. (word lists).
type world struct {
	k    map[string]*bip32.Key
	b    map[string][]byte // the slice handed to the library
	full map[string][]byte // its backing array
	g    map[string]*util.Generator
	r    map[string]*util.KeyPathRange
	l    map[string][]util.KeyPath
	w    map[string][]string
	vals map[string][]uint32
	t    map[string]string // texts
	last map[string]string
	src  *source
	wl   bool // a word list was set
	def  bool // a default network was set
}

// the library's own defaults
var mainnet, testnet = bip32.DefaultMainnetVersion, bip32.DefaultTestnetVersion

func newWorld() *world {
	return &world{k: map[string]*bip32.Key{}, b: map[string][]byte{}, full: map[string][]byte{}, g: map[string]*util.Generator{},
		r: map[string]*util.KeyPathRange{}, l: map[string][]util.KeyPath{}, w: map[string][]string{}, vals: map[string][]uint32{}, t: map[string]string{}, last: map[string]string{}}
}

func (w *world) close() {
	if w.src != nil {
		w.src.uninstall()
	}
	if w.wl {
		bip39.SetWordList(wordlists.English)
	}
	if w.def {
		bip32.DefaultMainnetVersion, bip32.DefaultTestnetVersion = mainnet, testnet
	}
}

func hx(b []byte) string  { return hex.EncodeToString(b) }
func hs(s string) string  { return hex.EncodeToString([]byte(s)) }
func u32(v uint32) string { return fmt.Sprintf("%08x", v) }
func str(e ev, k string) string {
	s, _ := e[k].(string)
	return s
}
func num(e ev, k string) int {
	f, _ := e[k].(float64)
	return int(f)
}
func flag(e ev, k string) bool {
	f, _ := e[k].(bool)
	return f
}
func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	check(err)
	return b
}
func idx(e ev, k string) uint32 {
	b := unhex(str(e, k))
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}

func listText(l []util.KeyPath) []any {
	r := make([]any, 0, len(l))
	for i := range l {
		r = append(r, ev{"p": hs(string(l[i].Path)), "k": hx(l[i].Key[:])})
	}
	return r
}
func listStr(l []util.KeyPath) string {
	var sb strings.Builder
	for i := range l {
		sb.WriteString(hs(string(l[i].Path)))
		sb.WriteString("=")
		sb.WriteString(hx(l[i].Key[:]))
		sb.WriteString(";")
	}
	return sb.String()
}

// delta lists the objects whose content changed since the last call.
func (w *world) delta() ev {
	d := ev{}
	put := func(n, v string) {
		if o, ok := w.last[n]; !ok || o != v {
			w.last[n] = v
			d[n] = v
		}
	}
	for n, k := range w.k {
		put(n, hx(k[:]))
	}
	for n := range w.b {
		put(n, hx(w.full[n]))
	}
	for n, g := range w.g {
		put(n, hx(g.RootKey()[:]))
	}
	for n, r := range w.r {
		put(n, listStr(r.KeyPaths))
		put(n+"!", u32(r.StartIndex)+u32(r.EndIndex)+hs(string(r.Path))+"|"+hx(r.Key[:])) // what the caller asked for
	}
	for n, l := range w.l {
		put(n, listStr(l))
	}
	for n, l := range w.w {
		put(n, hs(strings.Join(l, " ")))
	}
	for n, l := range w.vals {
		put(n, fmt.Sprint(l))
	}
	return d
}

var sentinels = []struct {
	n string
	e error
}{
	{"ErrSerializedKeyWrongSize", bip32.ErrSerializedKeyWrongSize},
	{"ErrHardenedChildPublicKey", bip32.ErrHardenedChildPublicKey},
	{"ErrInvalidChecksum", bip32.ErrInvalidChecksum},
	{"ErrInvalidPrivateKey", bip32.ErrInvalidPrivateKey},
	{"ErrInvalidPublicKey", bip32.ErrInvalidPublicKey},
	{"ErrInvalidMnemonic", bip39.ErrInvalidMnemonic},
	{"ErrEntropyLengthInvalid", bip39.ErrEntropyLengthInvalid},
	{"ErrChecksumIncorrect", bip39.ErrChecksumIncorrect},
	{"ErrInvalidMnemonicWordsCount", util.ErrInvalidMnemonicWordsCount},
	{"ErrInvalidBIP39Seed", util.ErrInvalidBIP39Seed},
	{"ErrInvalidRootKey", util.ErrInvalidRootKey},
	{"ErrInvalidRangeProvided", util.ErrInvalidRangeProvided},
	{"ErrInvalidMasterKey", bip32.ErrInvalidMasterKey},
	{"ErrEmptyKey", bip32.ErrEmptyKey},
	{"ErrDepthExceeded", bip32.ErrDepthExceeded},
	{"ErrUnSupportedHDVersionBytes", bip32.ErrUnSupportedHDVersionBytes},
	{"ErrInvalidPurpose", bip32.ErrInvalidPurpose},
	{"ErrInvalidCoin", bip32.ErrInvalidCoin},
	{"bip32.ErrUnSupportedOrInvalidPath", bip32.ErrUnSupportedOrInvalidPath},
	{"util.ErrUnSupportedOrInvalidPath", util.ErrUnSupportedOrInvalidPath},
}

func setErr(out ev, err error) {
	if err == nil {
		out["o"] = "ok"
		return
	}
	out["o"] = "err"
	out["e"] = "other"
	l := names(err)
	out["es"] = l
	for _, n := range l {
		out["e"] = n
	}
}

// names lists the library's errors that err is, "other" if it is none.
func names(err error) []string {
	l := []string{}
	for _, s := range sentinels {
		if errors.Is(err, s.e) {
			l = append(l, s.n)
		}
	}
	if len(l) == 0 {
		l = append(l, "other")
	}
	return l
}

func (w *world) key(n string) *bip32.Key {
	k := w.k[n]
	if k == nil {
		k = &bip32.Key{}
		w.k[n] = k
	}
	return k
}

// setKey stores a result, in the same memory (re) or as a fresh object.
func (w *world) setKey(n string, v bip32.Key, re bool) {
	if re && w.k[n] != nil {
		*w.k[n] = v
		return
	}
	w.k[n] = &v
}

// setPtr adopts the very object the library returned.
func (w *world) setPtr(n string, p *bip32.Key) {
	if p != nil {
		w.k[n] = p
	}
}

// setBuf adopts the very slice the library returned, with its spare capacity.
func (w *world) setBuf(n string, b []byte) {
	w.b[n] = b
	w.full[n] = b[:cap(b):cap(b)]
}

// callerBuf makes a caller's buffer: content between pre bytes in front and post bytes of spare capacity.
func callerBuf(c []byte, pre, post int) (b, full []byte) {
	full = bytes.Repeat([]byte{0xa5}, pre+len(c)+post)
	copy(full[pre:], c)
	return full[pre : pre+len(c)], full
}
