------------------------------ MODULE Failures ------------------------------
(***************************************************************************)
(* What the error of a failing call may say (C25).  The other modules      *)
(* define the causes that a call has to fail; this one says which of the   *)
(* library's named errors tell of which cause.  Where several causes       *)
(* apply, any of them may be told.  "other" is an error without a name.    *)
(***************************************************************************)
EXTENDS Sequences, TLC

Tells == "size" :> {"ErrSerializedKeyWrongSize"} @@ "checksum" :> {"ErrInvalidChecksum"} @@ "private" :> {"ErrInvalidPrivateKey"}
         @@ "public" :> {"ErrInvalidPublicKey"} @@ "version" :> {"ErrUnSupportedHDVersionBytes"} @@ "master" :> {"ErrInvalidMasterKey"}
         @@ "hard" :> {"ErrHardenedChildPublicKey"} @@ "depth" :> {"ErrDepthExceeded"} @@ "empty" :> {"ErrEmptyKey"}
         @@ "hex" :> {"other"} @@ "seed" :> {"ErrInvalidBIP39Seed"}
         @@ "path" :> {"bip32.ErrUnSupportedOrInvalidPath"} @@ "number" :> {"bip32.ErrUnSupportedOrInvalidPath", "other"}
         @@ "root" :> {"ErrInvalidRootKey"} @@ "range" :> {"ErrInvalidRangeProvided"} @@ "walletpath" :> {"util.ErrUnSupportedOrInvalidPath"}
         @@ "count" :> {"ErrInvalidMnemonic"} @@ "sum" :> {"ErrChecksumIncorrect"} @@ "word" :> {"other", "ErrInvalidMnemonic"}
         @@ "entropy" :> {"ErrEntropyLengthInvalid"} @@ "words" :> {"ErrInvalidMnemonicWordsCount"} @@ "source" :> {"other"}
         @@ "row" :> {"ErrUnSupportedHDVersionBytes", "ErrInvalidPurpose", "ErrInvalidCoin"}

\* names: all of the library's errors that the error of a failed call is.
\* (A call that fails without a cause, or succeeds in spite of one, is the business of other properties.)
\* (The two packages may share their error for paths.)
Shared == {"bip32.ErrUnSupportedOrInvalidPath", "util.ErrUnSupportedOrInvalidPath"}
Blames(names, causes) == causes # {} =>
    /\ names # {}
    /\ \A n \in names : \E c \in causes : n \in Tells[c] \/ (n \in Shared /\ \E m \in Shared \cap names : m \in Tells[c])
=============================================================================
