------------------------------ MODULE Slip132 ------------------------------
(***************************************************************************)
(* SLIP-0132, registered HD version bytes.  A frozen transcription of      *)
(* https://github.com/satoshilabs/slips/blob/master/slip-0132.md           *)
(***************************************************************************)
Slip132 == <<
  [coin |-> "Bitcoin", prv |-> "0488ade4", prvp |-> "xprv", pub |-> "0488b21e", pubp |-> "xpub", enc |-> <<"P2PKH", "P2SH">>, path |-> "m/44'/0'"],
  [coin |-> "Bitcoin", prv |-> "049d7878", prvp |-> "yprv", pub |-> "049d7cb2", pubp |-> "ypub", enc |-> <<"P2WPKHInP2SH">>, path |-> "m/49'/0'"],
  [coin |-> "Bitcoin", prv |-> "0295b005", prvp |-> "Yprv", pub |-> "0295b43f", pubp |-> "Ypub", enc |-> <<"P2WSHInP2SH">>, path |-> "m/84'/0'"],
  [coin |-> "Bitcoin", prv |-> "02aa7a99", prvp |-> "Zprv", pub |-> "02aa7ed3", pubp |-> "Zpub", enc |-> <<"P2WSH">>, path |-> "m/84'/0'"],
  [coin |-> "Bitcoin", prv |-> "04b2430c", prvp |-> "zprv", pub |-> "04b24746", pubp |-> "zpub", enc |-> <<"P2WPKH">>, path |-> "m/84'/0'"],
  [coin |-> "Bitcoin Testnet", prv |-> "04358394", prvp |-> "tprv", pub |-> "043587cf", pubp |-> "tpub", enc |-> <<"P2PKH", "P2SH">>, path |-> "m/44'/1'"],
  [coin |-> "Bitcoin Testnet", prv |-> "044a4e28", prvp |-> "uprv", pub |-> "044a5262", pubp |-> "upub", enc |-> <<"P2WPKHInP2SH">>, path |-> "m/49'/1'"],
  [coin |-> "Bitcoin Testnet", prv |-> "024285b5", prvp |-> "Uprv", pub |-> "024289ef", pubp |-> "Upub", enc |-> <<"P2WSHInP2SH">>, path |-> "m/84'/1'"],
  [coin |-> "Bitcoin Testnet", prv |-> "02575048", prvp |-> "Vprv", pub |-> "02575483", pubp |-> "Vpub", enc |-> <<"P2WSH">>, path |-> "m/84'/1'"],
  [coin |-> "Bitcoin Testnet", prv |-> "045f18bc", prvp |-> "vprv", pub |-> "045f1cf6", pubp |-> "vpub", enc |-> <<"P2WPKH">>, path |-> "m/84'/1'"],
  [coin |-> "Groestlcoin", prv |-> "0488ade4", prvp |-> "xprv", pub |-> "0488b21e", pubp |-> "xpub", enc |-> <<"P2PKH", "P2SH">>, path |-> "m/44'/17'"],
  [coin |-> "Groestlcoin", prv |-> "049d7878", prvp |-> "yprv", pub |-> "049d7cb2", pubp |-> "ypub", enc |-> <<"P2WPKHInP2SH">>, path |-> "m/49'/17'"],
  [coin |-> "Groestlcoin", prv |-> "0295b005", prvp |-> "Yprv", pub |-> "0295b43f", pubp |-> "Ypub", enc |-> <<"P2WSHInP2SH">>, path |-> "m/84'/17'"],
  [coin |-> "Groestlcoin", prv |-> "02aa7a99", prvp |-> "Zprv", pub |-> "02aa7ed3", pubp |-> "Zpub", enc |-> <<"P2WSH">>, path |-> "m/84'/17'"],
  [coin |-> "Groestlcoin", prv |-> "04b2430c", prvp |-> "zprv", pub |-> "04b24746", pubp |-> "zpub", enc |-> <<"P2WPKH">>, path |-> "m/84'/17'"],
  [coin |-> "Groestlcoin Testnet", prv |-> "04358394", prvp |-> "tprv", pub |-> "043587cf", pubp |-> "tpub", enc |-> <<"P2PKH", "P2SH">>, path |-> "m/44'/1'"],
  [coin |-> "Groestlcoin Testnet", prv |-> "044a4e28", prvp |-> "uprv", pub |-> "044a5262", pubp |-> "upub", enc |-> <<"P2WPKHInP2SH">>, path |-> "m/49'/1'"],
  [coin |-> "Groestlcoin Testnet", prv |-> "024285b5", prvp |-> "Uprv", pub |-> "024289ef", pubp |-> "Upub", enc |-> <<"P2WSHInP2SH">>, path |-> "m/84'/1'"],
  [coin |-> "Groestlcoin Testnet", prv |-> "02575048", prvp |-> "Vprv", pub |-> "02575483", pubp |-> "Vpub", enc |-> <<"P2WSH">>, path |-> "m/84'/1'"],
  [coin |-> "Groestlcoin Testnet", prv |-> "045f18bc", prvp |-> "vprv", pub |-> "045f1cf6", pubp |-> "vpub", enc |-> <<"P2WPKH">>, path |-> "m/84'/1'"],
  [coin |-> "Litecoin", prv |-> "019d9cfe", prvp |-> "Ltpv", pub |-> "019da462", pubp |-> "Ltub", enc |-> <<"P2PKH", "P2SH">>, path |-> "m/44'/2'"],
  [coin |-> "Litecoin", prv |-> "01b26792", prvp |-> "Mtpv", pub |-> "01b26ef6", pubp |-> "Mtub", enc |-> <<"P2WPKHInP2SH">>, path |-> "m/49'/2'"],
  [coin |-> "Litecoin Testnet", prv |-> "0436ef7d", prvp |-> "ttpv", pub |-> "0436f6e1", pubp |-> "ttub", enc |-> <<"P2PKH", "P2SH">>, path |-> "m/44'/1'"],
  [coin |-> "Nexa", prv |-> "426c6b73", prvp |-> "xprv", pub |-> "42696720", pubp |-> "xpub", enc |-> <<"P2PKT", "P2PKH", "P2SH">>, path |-> "m/44'/29223'"],
  [coin |-> "Nexa Testnet", prv |-> "04358394", prvp |-> "xprv", pub |-> "043587cf", pubp |-> "xpub", enc |-> <<"P2PKT", "P2PKH", "P2SH">>, path |-> "m/44'/1'"],
  [coin |-> "Polis", prv |-> "03e25945", prvp |-> "pprv", pub |-> "03e25d7e", pubp |-> "ppub", enc |-> <<"P2PKH">>, path |-> "m/44'/1997'"],
  [coin |-> "Syscoin", prv |-> "02aa7a99", prvp |-> "Zprv", pub |-> "02aa7ed3", pubp |-> "Zpub", enc |-> <<"P2WSH">>, path |-> "m/84'/57'"],
  [coin |-> "Syscoin", prv |-> "04b2430c", prvp |-> "zprv", pub |-> "04b24746", pubp |-> "zpub", enc |-> <<"P2WPKH">>, path |-> "m/84'/57'"],
  [coin |-> "Vertcoin", prv |-> "0488ade4", prvp |-> "vtcv", pub |-> "0488b21e", pubp |-> "vtcp", enc |-> <<"P2PKH", "P2SH">>, path |-> "m/44'/28'"]
>>
=============================================================================
