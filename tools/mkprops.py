#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a program only so that the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Master keys follow BIP-32 for every seed",
  "For every seed byte string the master extended key is exactly the BIP-32 master: private scalar and chain code are the left and right halves of HMAC-SHA512(\"Bitcoin seed\", seed), depth, parent fingerprint and child number are zero, and the version is the Bitcoin mainnet private version. The hex-seed entry point returns the same key for every hex string of at least 16 bytes, in either letter case, and fails with an error for malformed hex or shorter seeds.",
  ["inputs"], "all seed byte strings of any length, all hex spellings of them",
  "The tests use six fixed seeds (three BIP-32 vectors and three tiny ones); other lengths, block-boundary sizes and the hex entry point are never run.",
  ["bip32/bip32.go", "util/util.go"],
  [("NewMasterKey", "bip32/bip32.go"), ("RootKeyFromSeed", "util/util.go")],
  observe=["bip32.NewMasterKey", "util.RootKeyFromSeed"])

p("C02", "Private child derivation follows BIP-32 for every parent and index",
  "For every valid private extended key of depth below 255 with a registered version and every 32-bit index, the derived child is exactly BIP-32's CKDpriv: hardened indexes (2^31 and above) are derived from the private key, others from the public key, and the child carries the right 32-byte scalar, chain code, child number, parent fingerprint, depth one greater and the parent's version. The result depends on nothing but the parent's 78 bytes and the index, whatever was derived before.",
  ["inputs", "histories"], "all private parents, all 2^32 indexes, all preceding call histories",
  "Tests derive 11 children along three fixed vectors; scalars and coordinates with leading zero bytes, modular wrap-around, boundary indexes, other versions and repeated or interleaved derivations are not sampled.",
  ["bip32/bip32.go", "bip32/utils.go"],
  [("NewChildKey", "bip32/bip32.go"), ("getIntermediary", "bip32/bip32.go"), ("addPrivateKeys", "bip32/utils.go"), ("compressPublicKey", "bip32/utils.go")],
  state=[("Key", "78-byte extended key: version, depth, fingerprint, child number, chain code, key data", "bip32/bip32.go")],
  observe=["Key.NewChildKey"])

p("C03", "Public derivation always agrees with private derivation",
  "For every private extended key and every sequence of non-hardened indexes, neutering first and deriving publicly gives byte-for-byte the same extended public key as deriving privately and neutering last, at whatever point of the path the neutering happens. A hardened child of a public key is always refused with an error and yields no key.",
  ["inputs", "histories"], "all private keys, all non-hardened index sequences, every position of the neutering step",
  "The only commutation test compares 20 children of one fixed xpub against recorded values; no test relates the two routes, and none leaves Bitcoin's default version.",
  ["bip32/bip32.go", "bip32/utils.go"],
  [("NewChildKey (CKDpub branch)", "bip32/bip32.go"), ("PublicKeyExtended", "bip32/bip32.go"), ("addPublicKeys, ExpandPublicKey", "bip32/utils.go")],
  observe=["Key.NewChildKey", "Key.PublicKeyExtended"])

p("C04", "Neutering yields the matching public key and leaks nothing private",
  "The public counterpart of a valid private extended key holds the compressed curve point of its scalar, the public version paired with its private version (Bitcoin mainnet's when the version is not registered) and unchanged depth, fingerprint, child number and chain code, and contains no private key bytes; the public counterpart of a public key with a registered version is that key itself. A key reports being private exactly when it holds a scalar; the hex accessors give the 64-digit scalar of a private key, the empty string as private key of a public one, and the same 66-digit compressed point for a key and its public counterpart.",
  ["inputs"], "all valid extended keys of every version, private and public",
  "Tests check the xpub string of 14 fixed Bitcoin keys; other registered versions, unregistered versions, idempotence, leading zeros and the hex accessors are untested.",
  ["bip32/bip32.go", "bip32/utils.go", "bip32/reg_ver_bytes.go"],
  [("PublicKeyExtended", "bip32/bip32.go"), ("PrivateKeyHex, PublicKeyHex, IsPrivate", "bip32/bip32.go")],
  observe=["Key.PublicKeyExtended", "Key.PrivateKeyHex", "Key.PublicKeyHex", "Key.IsPrivate"])

p("C05", "Extended keys round-trip through bytes and Base58",
  "Every valid extended key serialises to its 78 bytes in BIP-32 field order followed by the first four bytes of their double SHA-256, and to the Base58 text of those 82 bytes; deserialising either form gives back the identical key, so different keys never share a text. A key value that holds no key (all bytes zero) has no serialised form: serialising it is an error and its text is empty. The field accessors return the same version, depth, fingerprint, child number, chain code and key bytes that the layout defines, and setting the version changes those four bytes only.",
  ["inputs"], "all valid extended keys, all versions",
  "Tests round-trip about 25 fixed keys; leading zero bytes of the payload (leading '1's), other versions, the accessors and the raw byte form are not covered.",
  ["bip32/bip32.go", "bip32/utils.go"],
  [("Serialize, B58Serialize, String", "bip32/bip32.go"), ("Deserialize, B58Deserialize", "bip32/bip32.go"), ("GetVersion, GetDepth, GetFingerPrint, GetChildNumber, GetChainCode, GetKeyBytes, GetPvtKeyBytes", "bip32/bip32.go")],
  observe=["Key.Serialize", "Key.B58Serialize", "Key.String", "Deserialize", "B58Deserialize"])

p("C06", "Malformed extended keys are always rejected",
  "Deserialising bytes or Base58 text succeeds only for exactly 82 bytes whose checksum matches and whose content is a legal BIP-32 key: a 0x00-prefixed scalar in [1, n-1] or a 02/03-prefixed point on the curve, a registered version of the same kind (private or public) or an unregistered one, and zero fingerprint and child number at depth 0. Every other input - any length, any character, any corrupted byte - is reported as an error, without a panic and without touching the caller's buffer.",
  ["inputs"], "all byte strings and all texts, in particular every single-byte corruption of a valid key",
  "Tests try three bad strings; they cannot enumerate lengths, corrupted positions, out-of-range scalars or off-curve points.",
  ["bip32/bip32.go", "bip32/utils.go"],
  [("Deserialize", "bip32/bip32.go"), ("B58Deserialize", "bip32/bip32.go"), ("ValidatePrivateKey", "bip32/utils.go"), ("IsValid", "bip32/bip32.go")],
  observe=["Deserialize", "B58Deserialize", "Key.IsValid", "ValidatePrivateKey"])

p("C07", "A derivation BIP-32 does not define fails loudly everywhere",
  "Deriving a hardened child from a public key, any child from a key of depth 255, or any child from a key whose version is unregistered or of the wrong kind fails with an error and returns no key material. Deriving along a path or over a range that contains such a step fails as a whole: the caller gets the error and no list of keys; in particular a key's depth always equals the number of derivation steps and never wraps around.",
  ["inputs", "histories"], "all keys, versions, depths, indexes, paths and ranges that reach a forbidden step at any position",
  "One test checks the hardened refusal on one public key; depth 255, unregistered versions and failures in the middle of a path or range are never exercised.",
  ["bip32/bip32.go", "util/util.go", "util/key_path.go"],
  [("NewChildKey guards", "bip32/bip32.go"), ("DeriveBIP32Result", "util/util.go"), ("GenerateRange", "util/key_path.go")],
  observe=["Key.NewChildKey", "Generator.DeriveBIP32Result", "KeyPathRange.GenerateRange"])

p("C08", "Path strings are parsed exactly or rejected",
  "A derivation path is accepted if and only if, after removing whitespace, it is m or M followed by zero or more hardened components (decimal number below 2^31 and an apostrophe) and then zero or more plain components (decimal number below 2^32), each introduced by a slash. The parsed values are exactly those numbers, hardened ones plus 2^31, in order after a leading 0 for the root; no number is ever truncated or wrapped, and validity and values always agree.",
  ["inputs"], "all strings",
  "No test exercises paths at all.",
  ["bip32/path.go"],
  [("PathRegex", "bip32/path.go"), ("Path.ValuesAtDepth, Path.IsValid, Path.String, Path.Formatted", "bip32/path.go")],
  observe=["Path.IsValid", "Path.ValuesAtDepth", "Path.String"])

p("C09", "Reading or replacing one path component touches only that component",
  "For every valid path, reading the value at a depth gives the parsed value at that depth for every depth from 0 to the path's length and an error beyond it. Replacing the value at a depth either fails with an error and returns the path unchanged, or returns a valid path whose values equal the original's except for the given value at that depth; it succeeds whenever the depth is between 1 and the path's length and the new value is 2^31 or more exactly when the old component has an apostrophe.",
  ["inputs", "histories"], "all valid paths of up to 255 components, all depths 0..255, all 32-bit values, all sequences of replacements",
  "No test exercises these operations.",
  ["bip32/path.go"],
  [("Path.ValueAtDepth", "bip32/path.go"), ("Path.ReplaceValueAtDepth", "bip32/path.go")],
  observe=["Path.ValueAtDepth", "Path.ReplaceValueAtDepth"])

p("C10", "Deriving along a path yields every prefix with the right key",
  "For a private master key of registered version and any valid path of n components (n at most 255) the result lists exactly n+1 entries: the root as m, then one entry per component labelled with the canonical path so far and holding the key BIP-32 derivation along that label gives. If the configured root is not a valid private key of depth 0 or the path is invalid the call fails with an error and no entries; the configured root is never changed by deriving, and setting another root takes full effect on the next call.",
  ["inputs", "histories"], "all roots, all paths, all sequences of root changes and derivations",
  "Package util has no tests at all.",
  ["util/util.go", "bip32/path.go", "bip32/bip32.go"],
  [("Generator.SetRootKey, RootKey, DeriveBIP32Result", "util/util.go")],
  state=[("Generator.rootKey", "the configured root key", "util/util.go")],
  observe=["Generator.DeriveBIP32Result", "Generator.RootKey"])

p("C11", "Range generation lists exactly the requested indexes with their keys",
  "Generating the half-open range [start, end) from a valid base key and path yields exactly end-start entries in order, the k-th labelled by a path that extends the base path and ends in index start+k (with an apostrophe and minus 2^31 for hardened indexes), and its key is the one derived from the base key along the components its label adds to the base path. An empty or inverted range, an invalid base key or an invalid base path fails with an error and leaves the previous entries untouched.",
  ["inputs", "histories"], "all base keys (private and public), all start/end pairs, all repeated calls on one object",
  "Package util has no tests at all.",
  ["util/key_path.go"],
  [("KeyPathRange.GenerateRange", "util/key_path.go")],
  state=[("KeyPathRange.KeyPaths", "generated entries", "util/key_path.go")],
  observe=["KeyPathRange.GenerateRange"])

p("C12", "Mnemonics encode entropy losslessly as BIP-39 defines",
  "For every entropy of 16, 20, 24, 28 or 32 bytes and whichever word list of 2048 distinct words is active, the mnemonic is the single-space-joined list of words selected by the successive 11-bit groups of entropy followed by its SHA-256 checksum bits, and decoding it returns exactly that entropy (also in raw byte-array form), or, in checksummed byte-array form, entropy and checksum as one big-endian number of fixed length. Entropy of any other length is rejected with an error.",
  ["inputs", "configurations"], "all entropies of the five sizes, all byte lengths, all active word lists",
  "Tests use 24 vectors and random English entropy without leading zero bytes beyond one; other word lists, multiple leading zeros and the byte-array contents are not checked.",
  ["bip39/bip39.go"],
  [("NewMnemonic, addChecksum", "bip39/bip39.go"), ("EntropyFromMnemonic, MnemonicToByteArray", "bip39/bip39.go")],
  state=[("wordList/wordMap", "active word list and its reverse index", "bip39/bip39.go")],
  observe=["NewMnemonic", "EntropyFromMnemonic", "MnemonicToByteArray"])

p("C13", "All mnemonic validators accept exactly the valid mnemonics",
  "A text is accepted as a mnemonic if and only if it consists of 12, 15, 18, 21 or 24 whitespace-separated words of the active list whose checksum bits match, and every entry point (validity test, entropy decoding, byte-array decoding, checked seed creation, hex seed derivation) gives the same verdict. A wrong word count and a wrong checksum are reported as their documented distinct errors, an unknown word as a further error, the decoded bytes do not depend on how the words are spaced, and no text causes a panic.",
  ["inputs", "configurations"], "all texts, all active word lists",
  "Tests reject 19 fixed sentences; they cannot enumerate word counts, replaced, swapped or missing words, spacings, or the agreement of the entry points.",
  ["bip39/bip39.go", "util/util.go"],
  [("splitMnemonicWords, EntropyFromMnemonic, IsMnemonicValid, MnemonicToByteArray, NewSeedWithErrorChecking", "bip39/bip39.go"), ("DeriveSeedFromMnemonic", "util/util.go")],
  observe=["IsMnemonicValid", "EntropyFromMnemonic", "MnemonicToByteArray", "NewSeedWithErrorChecking", "util.DeriveSeedFromMnemonic"])

p("C14", "The word list set last is the one every operation uses",
  "After any sequence of word list changes, encoding, decoding, validation and word lookup all use exactly the list set last: a word's index is its position in that list, words of earlier lists that it lacks are unknown, and mnemonics made under one list decode again whenever that list is active. Before any change the active list is the official English one.",
  ["histories", "configurations"], "all interleavings of word list changes with encode, decode, validate and lookup",
  "No test ever changes the word list.",
  ["bip39/bip39.go"],
  [("SetWordList, GetWordList, GetWordIndex", "bip39/bip39.go")],
  state=[("wordList", "active list", "bip39/bip39.go"), ("wordMap", "reverse index", "bip39/bip39.go")],
  observe=["SetWordList", "GetWordList", "GetWordIndex", "NewMnemonic", "EntropyFromMnemonic"])

p("C15", "Seeds are the BIP-39 PBKDF2 of mnemonic and passphrase",
  "The seed of a mnemonic and passphrase is PBKDF2-HMAC-SHA512 with the NFKD-normalised UTF-8 mnemonic as password, \"mnemonic\" followed by the NFKD-normalised passphrase as salt, 2048 iterations and 64 bytes of output, for texts of every length. The checked variant and the hex variant return the same seed (lower-case hex in the latter) for valid mnemonics and an error without a seed for invalid ones.",
  ["inputs"], "all mnemonic and passphrase texts",
  "Tests use one ASCII passphrase with 24 English mnemonics; empty, long, non-ASCII and non-normalised texts are not covered.",
  ["bip39/bip39.go", "util/util.go"],
  [("NewSeed, NewSeedWithErrorChecking", "bip39/bip39.go"), ("DeriveSeedFromMnemonic", "util/util.go")],
  observe=["NewSeed", "NewSeedWithErrorChecking", "util.DeriveSeedFromMnemonic"])

p("C16", "The ten built-in word lists are the official BIP-39 lists",
  "Each of the ten exported word lists is the official BIP-39 list of its language: 2048 distinct non-empty NFKD words without whitespace, every word at its official position. A mnemonic made in any implementation with one of these languages therefore decodes here to the same entropy.",
  ["configurations", "inputs"], "all ten languages, all 2048 positions",
  "Tests only read the English list and compare it with itself; the start-up CRC check guards the raw text only and lives next to the data it guards.",
  ["bip39/wordlists/english.go", "bip39/wordlists/japanese.go", "bip39/wordlists/korean.go", "bip39/wordlists/spanish.go", "bip39/wordlists/french.go", "bip39/wordlists/italian.go", "bip39/wordlists/czech.go", "bip39/wordlists/portuguese.go", "bip39/wordlists/chinese_simplified.go", "bip39/wordlists/chinese_traditional.go"],
  [("init CRC checks and the list variables", "bip39/wordlists/*.go")],
  observe=["wordlists.English ... wordlists.Spanish", "SetWordList + GetWordIndex"])

p("C17", "Generated secrets are complete fresh randomness or an error",
  "Random entropy, random seeds and generated mnemonics have exactly the requested size (128, 160, 192, 224 or 256 bits; 256 bytes; 12, 15, 18, 21 or 24 words with a valid checksum), every part of them comes fresh from the operating system's secure random source, and other sizes are rejected with an error. If the random source fails or runs dry, whether at once or part-way, the call reports an error and returns no secret; short reads are completed.",
  ["fault_sequences", "inputs"], "all requested sizes, all failure points and short-read patterns of the random source",
  "Tests only look at lengths with a healthy source; they cannot see repeated, partial or ignored-error randomness.",
  ["bip39/bip39.go", "bip32/bip32.go", "util/util.go"],
  [("NewEntropy", "bip39/bip39.go"), ("NewSeed", "bip32/bip32.go"), ("GenerateMnemonic", "util/util.go")],
  observe=["bip39.NewEntropy", "bip32.NewSeed", "util.GenerateMnemonic"])

p("C18", "Account addresses are the Keccak hash of the full-width public point",
  "For every extended key, private or public, the hex account address is the last 20 bytes of Keccak-256 over the 64-byte uncompressed public point (both coordinates padded to 32 bytes) in 40 lower-case hex digits. A private key and its public counterpart have the same address.",
  ["inputs"], "all valid extended keys, in particular those with coordinates starting with zero bytes",
  "Package util has no tests; a coordinate has a leading zero byte for about one key in 128, so samples easily miss it.",
  ["util/key_path.go", "bip32/utils.go"],
  [("KeyPath.AddrHex", "util/key_path.go"), ("ExpandPublicKey", "bip32/utils.go")],
  observe=["KeyPath.AddrHex"])

p("C19", "Base58Check addresses encode prefix, key hash and checksum",
  "For every valid extended key and every prefix byte, the Base58 address is Base58 of the prefix, RIPEMD-160(SHA-256(compressed public key)) and the first four bytes of their double SHA-256, with one leading '1' per leading zero byte. A private key and its public counterpart have the same address, and the exported hash and checksum helpers give those same values for all data.",
  ["inputs"], "all valid extended keys, all 256 prefixes, all data",
  "Package util has no tests and the helpers are only used indirectly.",
  ["util/key_path.go", "bip32/utils.go"],
  [("KeyPath.AddrP2SH", "util/key_path.go"), ("HashRipeMD160onSha256, ChecksumDblSha256, AddChecksumDblSha256ToBytes", "bip32/utils.go")],
  observe=["KeyPath.AddrP2SH", "HashRipeMD160onSha256", "ChecksumDblSha256", "AddChecksumDblSha256ToBytes"])

p("C20", "The HD version registry is SLIP-0132 and consistently indexed",
  "The registered HD versions are exactly the rows of SLIP-0132 with their coin, private and public version numbers, prefixes, address encodings and paths (m/84'/coin' for the multi-signature rows, whose path SLIP-0132 leaves open); private and public versions are paired one-to-one and never overlap. Every index over the registry (by path, private version, public version, purpose with and without the hardened bit, coin type) contains every registered row exactly once under its own key and nothing else, and purpose and coin numbers equal those of the row's path and are refused for rows without a valid two-level hardened path; a row is registered exactly when its path is a registered row's.",
  ["configurations", "inputs"], "all registered rows, all index keys, all row values",
  "The test checks only that accessors return no error and two indexes agree with them; missing, duplicated or wrong rows and the other indexes go unnoticed.",
  ["bip32/reg_ver_bytes.go", "bip32/slip-0132.md"],
  [("PathToHDBytesSlice and init", "bip32/reg_ver_bytes.go"), ("VersionBytes.PurposeVal, CoinVal, PurposeValFull, CoinValFull, IsValid, IsRegistered", "bip32/reg_ver_bytes.go")],
  observe=["PathToHDBytesSlice", "PvtFlagToHDBytesSlice", "PubFlagToHDBytesSlice", "PurposeToHDBytesSlice", "PurposeFullToHDBytesSlice", "CoinTypeToHDBytesSlice", "HDVersionBytesSlice"])

p("C21", "The coin registry is SLIP-0044 and consistently indexed",
  "The registered coins are exactly the named, non-reserved rows of SLIP-0044, each once, with symbol, name and path component as listed and type equal to the path component minus 2^31. Every coin is found under its type and its path component, every coin name finds a coin of that name, none of the lookups contains anything else, and a coin counts as valid exactly when it has a non-blank name or symbol and type and path component match.",
  ["configurations", "inputs"], "all 1136 rows, all lookup keys, all coin values",
  "The only test checks that the registered rows pass the validity predicate; wrong, missing or shadowed rows and the three lookup tables are not examined.",
  ["bip44/coins.go", "bip44/coin.go", "bip44/slip-0044.md"],
  [("RegCoins and init", "bip44/coins.go"), ("Coin.IsValid, Coin.String", "bip44/coin.go")],
  observe=["RegCoins", "RegBip44CoinsTypeToValMap", "RegBip44CoinsPathCompToValMap", "RegBip44CoinsNameToValMap", "Coin.IsValid", "Coin.String"])

p("C22", "Concurrent use gives the sequential results",
  "Any number of goroutines that derive keys, neuter, serialise, deserialise, parse paths, encode and decode mnemonics, create seeds and compute addresses at the same time, while the word list is left alone, each get exactly the result the call gives on its own. No such execution contains a data race, a crash or a deadlock, even when the goroutines share the same key, path or generator for reading.",
  ["schedules"], "all interleavings of concurrent calls that only read shared values",
  "All tests are single-threaded and no race detector run exists.",
  ["bip32/bip32.go", "bip32/utils.go", "bip32/path.go", "bip39/bip39.go", "util/util.go", "util/key_path.go"],
  [("absence of mutable package state outside init and SetWordList", "all packages")],
  observe=["all exported operations"])

p("C23", "Operations leave their inputs alone and results stand alone",
  "No operation changes the key, path, seed, entropy, byte buffer or generator root it is called on or given (other than through an explicit setter), including bytes of a caller's buffer outside the passed slice. Returned keys, byte slices and key lists are independent copies: modifying one changes neither earlier or later results nor the values they were computed from, and repeating a call with the same arguments gives the same result. (Generator.RootKey returns a reference to the generator's root, KeyPathRange.KeyPaths is the range's own field, and SetWordList and GetWordList share the caller's list; these are not copies.)",
  ["histories", "inputs"], "all sequences of operations with arbitrary modifications of inputs and results in between",
  "Tests never look at an argument after the call, never modify a result and never repeat a call.",
  ["bip32/bip32.go", "bip39/bip39.go", "util/util.go", "util/key_path.go"],
  [("value-typed Key and copying accessors", "bip32/bip32.go"), ("fresh slices from encoding functions", "bip39/bip39.go"), ("Generator, KeyPathRange", "util")],
  observe=["all exported operations"])

p("C24", "The wallet tool always shows keys derived from its current inputs",
  "In the graphical tool, after any sequence of edits to mnemonic, passphrase, seed, root key and path and of generate clicks, the displayed fields are consistent: seed from mnemonic and passphrase, root key from seed, tabs from root key and path (m when the path is invalid), and upstream fields that no longer apply are cleared. When the inputs define no valid private root key no tabs and no keys are shown, and whenever there are tabs one of them is selected and its details are displayed; clicking a tab selects it, the arrows select its neighbours. (Which tab is selected after a change of the inputs, and whether a passphrase entered without a mnemonic clears seed and root key, is left open.)",
  ["histories"], "all sequences of user edits and clicks",
  "The tool has no tests.",
  ["examples/ui/one/main.go"],
  [("onMnemonicChange, onMnemonicPassphraseChange, onSeedChange, onRootKeyStrChange, OnDerivationPathChange, onAutoCreateMnemonicClicked, loop", "examples/ui/one/main.go")],
  state=[("mnemonic, mnemonicPassPhrase, seed, rootKeyStr, derivationStr, keyPathTabs, bps", "displayed and derived state", "examples/ui/one/main.go")],
  observe=["rendered frames of the tool"])

p("C25", "A failing call names the reason",
  "When a call fails although it had a reason to, the error it returns (matched with errors.Is) is one of the library's named errors for a reason that applies to this call, or an unnamed error where the library has no name for it. Importing keys: wrong size, checksum, private key, public key, version of the wrong kind, fingerprint or number at depth 0. Deriving: hardened child of a public key, depth exceeded, unsupported version bytes. Serialising the zero key: empty key. Paths: unsupported or invalid path (a number that does not fit in 32 bits may be unnamed). Generators and ranges: invalid root key, invalid path, invalid range, or the error of the step that is not defined. Seeds: fewer than 16 bytes (malformed hex is unnamed). Mnemonics: word count, checksum (an unknown word is unnamed or an invalid mnemonic); entropy length, words count. A failure of the random source is unnamed. Version rows without a two-level hardened path: unsupported version bytes. Where several reasons apply any of them may be named; none is ever named that does not apply.",
  ["inputs", "histories"], "all calls that fail, for every single cause and combination of causes",
  "Tests check an error's presence for a few malformed inputs; no test combines causes or checks that distinct causes are told apart.",
  ["bip32/bip32.go", "bip32/path.go", "bip32/err.go", "bip32/reg_ver_bytes.go", "bip39/bip39.go", "util/err.go", "util/util.go", "util/key_path.go"],
  [("Err* and where they are returned", "bip32, bip39, util")],
  observe=["errors returned by all exported functions"])

p("C26", "A wallet is restored by its mnemonic and watched by its account's public key",
  "For every valid mnemonic (of whichever word list is active), passphrase in NFKD form, registered version and derivation path, the keys and addresses reached from it are those BIP-39 and BIP-32 define, whichever way they are reached: restored again from the written mnemonic or from its entropy, through seed bytes or hex, step by step, along a path, over a range, through an extended key written down and read back at any point, and, below the last hardened component, from the public key alone. What the library was used for before or in between - other mnemonics, passphrases, word lists, roots, paths - makes no difference; and every step that must fail fails without affecting what follows.",
  ["histories", "inputs"], "all sequences of calls that make, restore, write down and watch wallets",
  "The tests exercise each package by itself with fixed vectors; package util, which connects them, has no tests, and no test goes from a mnemonic to an address.",
  ["bip32/bip32.go", "bip39/bip39.go", "util/util.go", "util/key_path.go"],
  [("NewMnemonic, EntropyFromMnemonic, NewSeed", "bip39/bip39.go"), ("NewMasterKey, NewChildKey, PublicKeyExtended, B58Serialize, B58Deserialize", "bip32/bip32.go"), ("DeriveSeedFromMnemonic, RootKeyFromSeed, Generator", "util/util.go"), ("KeyPathRange.GenerateRange, KeyPath", "util/key_path.go")],
  observe=["KeyPath.AddrHex", "KeyPath.AddrP2SH", "Key.String", "Generator.DeriveBIP32Result", "KeyPathRange.GenerateRange"])

p("C27", "The default network is the one the program chose last",
  "A program may at any time choose another default network, a pair of a private and a public version, registered or its own: every master key made from then on, from seed bytes or a hex seed, carries the private version, and every private key of an unregistered version neutered from then on gets the public one, also when the same seed or key was used before. Everything else about these keys is as without the choice. Keys that exist, their children, the counterparts of keys with registered versions, and whatever is done after choosing another test network, are unaffected.",
  ["histories", "inputs"], "all sequences of choices of networks, master keys, derivations and neutered keys",
  "The tests never change the default network.",
  ["bip32/bip32.go", "util/util.go"],
  [("DefaultMainnetVersion, NewMasterKey, PublicKeyExtended", "bip32/bip32.go"), ("RootKeyFromSeed", "util/util.go")],
  observe=["NewMasterKey", "RootKeyFromSeed", "Key.PublicKeyExtended", "Key.GetVersion"])

p("C28", "What a coin prints, and its JSON form, tell which coin it is",
  "The text of a coin is its symbol and name joined by ' - ', or the name alone when it has no symbol, followed by its type in decimal in parentheses; its tabular form shows all four fields, the type in decimal and the path component in hexadecimal. Written as JSON a coin has exactly those of the members type, pathComponent, symbol and name that are not zero or empty, and reading it gives the same coin. No two registered coins print alike.",
  ["inputs"], "all coins: any type, path component, symbol and name",
  "No test prints or serialises a coin.",
  ["bip44/coin.go"],
  [("Coin, Coin.String, Coin.StringForMD", "bip44/coin.go")],
  observe=["Coin.String", "Coin.StringForMD", "encoding/json of Coin"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
