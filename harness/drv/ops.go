package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/bip39"
	"github.com/mearaj/bips/bip39/wordlists"
	"github.com/mearaj/bips/bip44"
	"github.com/mearaj/bips/util"
)

func keyOut(out ev, k bip32.Key) { out["key"] = hx(k[:]) }

// input is a byte argument of an operation: the buffer named src, or a fresh caller's buffer around b.
type input struct {
	b, full, before []byte
	out             ev
}

func (w *world) in(e, out ev) *input {
	var b, full []byte
	if n := str(e, "src"); n != "" {
		b, full = w.b[n], w.full[n]
	} else {
		b, full = callerBuf(unhex(str(e, "b")), num(e, "pre"), num(e, "post"))
		if n := str(e, "buf"); n != "" {
			w.b[n], w.full[n] = b, full
		}
	}
	out["in"] = hx(b)
	return &input{b, full, append([]byte(nil), full...), out}
}

// kept records whether the caller's whole buffer is as it was.
func (i *input) kept() { i.out["kept"] = bytes.Equal(i.full, i.before) }

// text is a text argument of an operation: that of register tn, or t itself.
func (w *world) text(e, out ev) string {
	if n := str(e, "tn"); n != "" {
		out["t"] = hs(w.t[n])
		return w.t[n]
	}
	return string(unhex(str(e, "t")))
}

func (w *world) exec(e, out ev) {
	w.call(e, out)
	if n := str(e, "tdst"); n != "" && out["o"] == "ok" {
		w.t[n] = string(unhex(str(out, "r"))) // the caller keeps the text
	}
}

func (w *world) call(e, out ev) {
	out["o"] = "ok"
	switch op := str(e, "op"); op {

	// ---------------------------------------------------------------- keys
	case "load": // the caller fills a key
		k := bip32.Key(unhex(str(e, "b")))
		w.setKey(str(e, "dst"), k, flag(e, "re"))
		keyOut(out, k)
	case "copy":
		w.setKey(str(e, "dst"), *w.key(str(e, "src")), flag(e, "re"))
		keyOut(out, *w.key(str(e, "dst")))
	case "poke": // the caller changes a byte of its own object
		n, off, x := str(e, "dst"), num(e, "off"), byte(num(e, "x"))
		switch n[0] {
		case 'k':
			w.key(n)[off%78] ^= x
			keyOut(out, *w.key(n))
		case 'b':
			if f := w.full[n]; len(f) > 0 {
				f[off%len(f)] ^= x
			}
		case 'l':
			if l := w.l[n]; len(l) > 0 {
				l[off%len(l)].Key[(off/7)%78] ^= x
				l[off%len(l)].Path += "x"
			}
		case 'r':
			if l := w.rng(n).KeyPaths; len(l) > 0 {
				l[off%len(l)].Key[(off/7)%78] ^= x
				l[off%len(l)].Path += "x"
			}
		case 'v':
			if l := w.vals[n]; len(l) > 0 {
				l[off%len(l)] ^= uint32(x)
			}
		}
	case "master":
		in := w.in(e, out)
		defer in.kept()
		k, err := bip32.NewMasterKey(in.b)
		setErr(out, err)
		if k != nil {
			keyOut(out, *k)
		}
		if err == nil {
			w.setPtr(str(e, "dst"), k)
		}
	case "root":
		k, err := util.RootKeyFromSeed(w.text(e, out))
		setErr(out, err)
		if k != nil {
			keyOut(out, *k)
		}
		if err == nil {
			w.setPtr(str(e, "dst"), k)
		}
	case "child":
		k, err := w.key(str(e, "src")).NewChildKey(idx(e, "i"))
		setErr(out, err)
		keyOut(out, k)
		if err == nil {
			w.setKey(str(e, "dst"), k, flag(e, "re"))
		}
	case "neuter":
		k := w.key(str(e, "src")).PublicKeyExtended()
		keyOut(out, k)
		w.setKey(str(e, "dst"), k, flag(e, "re"))
	case "setdefault":
		w.def = true
		nv := bip32.VersionBytes{Coin: "Example", PvtKeyFlag: idx(e, "v"), PubKeyFlag: idx(e, "u")}
		switch str(e, "how") {
		case "row":
			for _, row := range bip32.HDVersionBytesSlice {
				if row.PvtKeyFlag == nv.PvtKeyFlag && row.PubKeyFlag == nv.PubKeyFlag {
					nv = row
				}
			}
			bip32.DefaultMainnetVersion = nv
		case "fields":
			bip32.DefaultMainnetVersion.PvtKeyFlag, bip32.DefaultMainnetVersion.PubKeyFlag = nv.PvtKeyFlag, nv.PubKeyFlag
		case "test":
			bip32.DefaultTestnetVersion = nv
		default:
			bip32.DefaultMainnetVersion = nv
		}
	case "setver":
		k := w.key(str(e, "dst"))
		if flag(e, "arr") {
			k.SetVersion(bip32.Version(unhex(str(e, "v"))))
		} else {
			k.SetVersionUint32(idx(e, "v"))
		}
		keyOut(out, *k)
	case "prvhex":
		out["r"] = hs(w.key(str(e, "src")).PrivateKeyHex())
	case "pubhex":
		out["r"] = hs(w.key(str(e, "src")).PublicKeyHex())
	case "isprv":
		out["v"] = w.key(str(e, "src")).IsPrivate()
	case "valid":
		out["v"] = w.key(str(e, "src")).IsValid()
	case "fields":
		k := w.key(str(e, "src"))
		d, f, c, cc, kb, pk := k.GetDepth(), k.GetFingerPrint(), k.GetChildNumber(), k.GetChainCode(), k.GetKeyBytes(), k.GetPvtKeyBytes()
		out["ver"], out["depth"], out["fp"], out["num"] = u32(k.GetVersion()), hx(d[:]), hx(f[:]), hx(c[:])
		out["cc"], out["kb"], out["pk"] = hx(cc[:]), hx(kb[:]), hx(pk[:])
	case "ser":
		b, err := w.key(str(e, "src")).Serialize()
		setErr(out, err)
		out["r"] = hx(b)
		if err == nil {
			w.setBuf(str(e, "dst"), b)
		}
	case "b58":
		out["r"] = hs(w.key(str(e, "src")).B58Serialize())
	case "string":
		out["r"] = hs(w.key(str(e, "src")).String())
	case "deser":
		in := w.in(e, out)
		defer in.kept()
		k, err := bip32.Deserialize(in.b)
		setErr(out, err)
		keyOut(out, k)
		if err == nil {
			w.setKey(str(e, "dst"), k, flag(e, "re"))
		}
	case "b58deser":
		k, err := bip32.B58Deserialize(w.text(e, out))
		setErr(out, err)
		keyOut(out, k)
		if err == nil {
			w.setKey(str(e, "dst"), k, flag(e, "re"))
		}
	case "b58round": // serialise a key to text and read that text
		t := w.key(str(e, "src")).String()
		out["r"] = hs(t)
		k, err := bip32.B58Deserialize(t)
		setErr(out, err)
		keyOut(out, k)
		if err == nil {
			w.setKey(str(e, "dst"), k, flag(e, "re"))
		}
	case "addrhex":
		out["r"] = hs(util.KeyPath{Path: util.Path(w.text(e, out)), Key: *w.key(str(e, "src"))}.AddrHex())
	case "addrp2sh":
		out["r"] = hs(util.KeyPath{Path: util.Path(w.text(e, out)), Key: *w.key(str(e, "src"))}.AddrP2SH(byte(num(e, "x"))))
	case "buf": // the caller makes a buffer
		n := str(e, "dst")
		w.b[n], w.full[n] = callerBuf(unhex(str(e, "b")), num(e, "pre"), num(e, "post"))
	case "hash160":
		in := w.in(e, out)
		defer in.kept()
		b, err := bip32.HashRipeMD160onSha256(in.b)
		w.bytesOut(e, out, b, err)
	case "checksum":
		in := w.in(e, out)
		defer in.kept()
		b, err := bip32.ChecksumDblSha256(in.b)
		w.bytesOut(e, out, b, err)
	case "addchecksum":
		in := w.in(e, out)
		defer in.kept()
		b, err := bip32.AddChecksumDblSha256ToBytes(in.b)
		w.bytesOut(e, out, b, err)
	case "validprv":
		setErr(out, bip32.ValidatePrivateKey(bip32.PvtKeyBytes(unhex(str(e, "b")))))
	case "expand":
		in := w.in(e, out)
		defer in.kept()
		x, y := bip32.ExpandPublicKey(in.b)
		out["x"], out["y"] = fmt.Sprintf("%064x", x), fmt.Sprintf("%064x", y)
		if flag(e, "spoil") { // the caller goes on calculating with the result
			x.SetInt64(7)
			y.SetInt64(7)
		}

	// ---------------------------------------------------------------- paths
	case "path": // everything the package says about a path text
		p := bip32.Path(w.text(e, out))
		out["str"], out["fmt"] = hs(p.String()), hs(string(p.Formatted()))
		out["valid"] = p.IsValid()
		v, err := p.ValuesAtDepth()
		setErr(out, err)
		l := make([]string, len(v))
		for i := range v {
			l[i] = u32(v[i])
		}
		out["vals"] = l
		if n := str(e, "dst"); n != "" && err == nil {
			w.vals[n] = v
		}
	case "valat":
		v, err := bip32.Path(w.text(e, out)).ValueAtDepth(byte(num(e, "n")))
		setErr(out, err)
		out["v"] = u32(v)
	case "repl":
		p, err := bip32.Path(w.text(e, out)).ReplaceValueAtDepth(byte(num(e, "n")), idx(e, "v"))
		setErr(out, err)
		out["r"] = hs(string(p))

	// ---------------------------------------------------------------- generators
	case "gset":
		w.gen(str(e, "g")).SetRootKey(*w.key(str(e, "src")))
	case "groot":
		keyOut(out, *w.gen(str(e, "g")).RootKey())
	case "gderive":
		l, err := w.gen(str(e, "g")).DeriveBIP32Result(bip32.Path(w.text(e, out)))
		setErr(out, err)
		out["l"] = listText(l)
		if n := str(e, "dst"); n != "" && err == nil {
			w.l[n] = l
		}
	case "rset":
		r := w.rng(str(e, "r"))
		r.StartIndex, r.EndIndex = idx(e, "i"), idx(e, "j")
		r.Path, r.Key = bip32.Path(w.text(e, out)), *w.key(str(e, "src"))
	case "rgen":
		r := w.rng(str(e, "r"))
		out["in"] = u32(r.StartIndex) + u32(r.EndIndex) + hs(string(r.Path)) + "|" + hx(r.Key[:])
		before := listStr(r.KeyPaths)
		err := r.GenerateRange()
		setErr(out, err)
		out["l"] = listText(r.KeyPaths)
		out["same"] = before == listStr(r.KeyPaths)

	case "pick": // the caller takes a key out of a list, or out of the entries of a range
		l := w.l[str(e, "src")]
		if n := str(e, "src"); n[0] == 'r' {
			l = w.rng(n).KeyPaths
		}
		if len(l) > 0 {
			w.setKey(str(e, "dst"), l[num(e, "n")%len(l)].Key, flag(e, "re"))
		}
	case "text": // the caller writes a text
		out["r"] = str(e, "t")
	case "tpoke": // and changes a character of it
		n, off, x := str(e, "tn"), num(e, "off"), byte(num(e, "x"))
		if t := []byte(w.t[n]); len(t) > 0 {
			t[off%len(t)] = x
			w.t[n] = string(t)
		}

	case "rtake": // the caller keeps the list of a range
		w.l[str(e, "dst")] = w.rng(str(e, "r")).KeyPaths

	// ---------------------------------------------------------------- mnemonics
	case "wl": // activate a word list
		l := wordsOf(e)
		if d := str(e, "dst"); d != "" {
			if into := w.w[d]; flag(e, "into") && len(into) == len(l) {
				copy(into, l) // the caller edits the list it has set before
				l = into
			} else {
				l = append([]string(nil), l...)
				w.w[d] = l
			}
		}
		bip39.SetWordList(l)
		w.wl = true
	case "wget":
		out["r"] = hs(strings.Join(bip39.GetWordList(), " "))
	case "widx":
		i, ok := bip39.GetWordIndex(w.text(e, out))
		out["v"], out["found"] = i, ok
	case "enc":
		in := w.in(e, out)
		defer in.kept()
		s, err := bip39.NewMnemonic(in.b)
		setErr(out, err)
		out["r"] = hs(s)
	case "dec":
		b, err := bip39.EntropyFromMnemonic(w.text(e, out))
		w.bytesOut(e, out, b, err)
	case "arr":
		var b []byte
		var err error
		switch num(e, "raw") {
		case 0:
			b, err = bip39.MnemonicToByteArray(w.text(e, out))
		case 1:
			b, err = bip39.MnemonicToByteArray(w.text(e, out), false)
		case 2:
			b, err = bip39.MnemonicToByteArray(w.text(e, out), true)
		case 3:
			b, err = bip39.MnemonicToByteArray(w.text(e, out), true, false)
		}
		w.bytesOut(e, out, b, err)
	case "mvalid":
		out["v"] = bip39.IsMnemonicValid(w.text(e, out))
	case "seed":
		w.bytesOut(e, out, bip39.NewSeed(w.text(e, out), string(unhex(str(e, "u")))), nil)
	case "seedchk":
		b, err := bip39.NewSeedWithErrorChecking(w.text(e, out), string(unhex(str(e, "u"))))
		w.bytesOut(e, out, b, err)
	case "seedhex":
		s, err := util.DeriveSeedFromMnemonic(w.text(e, out), string(unhex(str(e, "u"))))
		setErr(out, err)
		out["r"] = hs(s)

	// ---------------------------------------------------------------- tables
	case "words": // an exported word list
		l := []string{}
		for _, x := range builtin(str(e, "name")) {
			l = append(l, hs(x))
		}
		out["l"] = l
	case "versions":
		out["l"] = versionRows(bip32.HDVersionBytesSlice)
	case "veridx":
		var l []any
		switch str(e, "by") {
		case "path":
			for k, v := range bip32.PathToHDBytesSlice {
				l = append(l, ev{"k": hs(k), "rows": versionRows(v)})
			}
		default:
			m := map[string]map[uint32][]bip32.VersionBytes{"prv": bip32.PvtFlagToHDBytesSlice, "pub": bip32.PubFlagToHDBytesSlice,
				"purpose": bip32.PurposeToHDBytesSlice, "purposefull": bip32.PurposeFullToHDBytesSlice, "coin": bip32.CoinTypeToHDBytesSlice}[str(e, "by")]
			for k, v := range m {
				l = append(l, ev{"k": u32(k), "rows": versionRows(v)})
			}
		}
		out["l"] = l
	case "vermeth": // what a row of version bytes answers
		v := bip32.VersionBytes{Coin: "Coin", PvtKeyFlag: idx(e, "prv"), PubKeyFlag: idx(e, "pub"), Path: bip32.Path(w.text(e, out))}
		verMeth(v, out)
	case "coins":
		l := []any{}
		for _, c := range bip44.RegCoins {
			l = append(l, coinRow(c))
		}
		out["l"] = l
	case "coinidx":
		l := []any{}
		switch str(e, "by") {
		case "type":
			for k, c := range bip44.RegBip44CoinsTypeToValMap {
				l = append(l, ev{"k": u32(k), "row": coinRow(c)})
			}
		case "pc":
			for k, c := range bip44.RegBip44CoinsPathCompToValMap {
				l = append(l, ev{"k": u32(k), "row": coinRow(c)})
			}
		case "name":
			for k, c := range bip44.RegBip44CoinsNameToValMap {
				l = append(l, ev{"k": hs(k), "row": coinRow(c)})
			}
		}
		out["l"] = l
	case "coinmeth":
		c := bip44.Coin{Type: idx(e, "type"), PathComponent: idx(e, "pc"), Symbol: string(unhex(str(e, "sym"))), Name: string(unhex(str(e, "name")))}
		out["v"] = c.IsValid()
		out["str"], out["md"] = hs(c.String()), hs(c.StringForMD())
		written, err := json.Marshal(c)
		var back bip44.Coin
		var members map[string]any
		if err == nil {
			err = json.Unmarshal(written, &back)
		}
		if err == nil {
			err = json.Unmarshal(written, &members)
		}
		keys := []string{}
		for k := range members {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		out["keys"], out["good"] = keys, err == nil
		out["back"] = ev{"type": u32(back.Type), "pc": u32(back.PathComponent), "sym": hs(back.Symbol), "name": hs(back.Name)}

	// ---------------------------------------------------------------- random secrets
	case "source":
		w.setSource(e)
	case "entropy":
		b, err := bip39.NewEntropy(num(e, "n"))
		w.bytesOut(e, out, b, err)
		w.sourceOut(out)
	case "newseed":
		b, err := bip32.NewSeed()
		w.bytesOut(e, out, b, err)
		w.sourceOut(out)
	case "genmn":
		s, err := util.GenerateMnemonic(byte(num(e, "n")))
		setErr(out, err)
		out["r"] = hs(s)
		w.sourceOut(out)

	case "join": // after the calls of goroutines
		out["race"] = races()

	default:
		check(fmt.Errorf("unknown operation %q", op))
	}
}

func versionRows(l []bip32.VersionBytes) []any {
	r := []any{}
	for _, v := range l {
		enc := []string{}
		for _, a := range v.AddrEncodings {
			enc = append(enc, string(a))
		}
		x := ev{"coin": v.Coin, "prv": u32(v.PvtKeyFlag), "prvp": v.PvKeyPrefix, "pub": u32(v.PubKeyFlag), "pubp": v.PubKeyPrefix, "enc": enc, "path": string(v.Path)}
		m := ev{}
		verMeth(v, m)
		r = append(r, ev{"row": x, "meth": m})
	}
	return r
}

func verMeth(v bip32.VersionBytes, out ev) {
	q := func(x uint32, err error) []string {
		if err != nil {
			return append([]string{"err"}, names(err)...)
		}
		return []string{"ok", u32(x)}
	}
	out["purpose"], out["coin"] = q(v.PurposeVal()), q(v.CoinVal())
	out["purposefull"], out["coinfull"] = q(v.PurposeValFull()), q(v.CoinValFull())
	a, b := v.PvtKeyFlagBytes(), v.PubKeyFlagBytes()
	out["prvb"], out["pubb"] = hx(a[:]), hx(b[:])
	out["valid"], out["reg"] = v.IsValid(), v.IsRegistered()
}

func coinRow(c bip44.Coin) ev {
	return ev{"type": u32(c.Type), "pc": u32(c.PathComponent), "sym": hs(c.Symbol), "name": hs(c.Name), "valid": c.IsValid()}
}

func (w *world) bytesOut(e, out ev, b []byte, err error) {
	setErr(out, err)
	out["r"] = hx(b)
	out["nil"] = b == nil
	if n := str(e, "dst"); n != "" && err == nil {
		w.setBuf(n, b)
	}
}

func (w *world) gen(n string) *util.Generator {
	if w.g[n] == nil {
		w.g[n] = &util.Generator{}
	}
	return w.g[n]
}

func (w *world) rng(n string) *util.KeyPathRange {
	if w.r[n] == nil {
		w.r[n] = &util.KeyPathRange{}
	}
	return w.r[n]
}

// wordsOf makes the list a plan asks for: the words given (t), or a built-in or synthetic list (name), of which every
// each-th word is that of another list (name2), reversed (rev) and rotated (rot).
func wordsOf(e ev) []string {
	n := str(e, "name")
	if n == "" {
		return strings.Split(string(unhex(str(e, "t"))), " ")
	}
	l := builtin(n)
	k, rot, rev, sw := num(e, "each"), num(e, "rot"), flag(e, "rev"), num(e, "sw")
	if k == 0 && rot == 0 && !rev && sw == 0 {
		return l
	}
	r := make([]string, len(l))
	for i := range r {
		j := (i + rot) % len(l)
		if rev {
			j = len(l) - 1 - j
		}
		r[i] = l[j]
		if k > 0 && j%k == 0 {
			r[i] = builtin(str(e, "name2"))[j]
		}
	}
	if sw > 0 {
		r[sw-1], r[sw] = r[sw], r[sw-1]
	}
	return r
}

func builtin(n string) []string {
	switch n {
	case "english":
		return wordlists.English
	case "japanese":
		return wordlists.Japanese
	case "spanish":
		return wordlists.Spanish
	case "french":
		return wordlists.French
	case "italian":
		return wordlists.Italian
	case "korean":
		return wordlists.Korean
	case "czech":
		return wordlists.Czech
	case "portuguese":
		return wordlists.Portuguese
	case "chinese_simplified":
		return wordlists.ChineseSimplified
	case "chinese_traditional":
		return wordlists.ChineseTraditional
	case "made":
		l := make([]string, 2048)
		for i := range l {
			l[i] = fmt.Sprintf("w%d", i)
		}
		return l
	}
	return nil
}
