"""What each check runs: the modules of its suite, sizes as (quick, thorough), and the results falsified as a guard."""

SUITES = {
    "Path": dict(gen="G_Path", trace="T_Path", mc=[("MC_Paths", {"LEVEL": (6, 8)})]),
    "Mnem": dict(gen="G_Mnem", trace="T_Mnem", mc=[("MC_Mnemonics", {"LEVEL": (3, 6)})]),
    "Reg": dict(gen="G_Reg", trace="T_Reg", mc=[("MC_Registry", {})]),
    "Wallet": dict(gen="G_Wallet", trace="T_Wallet", mc=[("MC_Wallet", {"LEVEL": (2, 3)})]),
    "Addr": dict(gen="G_Addr", trace="T_Addr", mc=[("MC_Addr", {"LEVEL": (5, 7)})]),
    "Pure": dict(gen="G_Pure", trace="T_Pure", mc=[("MC_Purity", {"LEVEL": (5, 7)})]),
    "Conc": dict(gen="G_Conc", trace="T_Conc", drive="drive_together"),
    "Rand": dict(gen="G_Rand", trace="T_Rand", mc=[("MC_Secrets", {"LEVEL": (7, 9)})]),
    "UI": dict(gen="G_UI", trace="T_UI", mc=[("MC_WalletUI", {"LEVEL": (4, 6)})], build="build_tool", drive="drive_tool"),
    "Jour": dict(gen="G_Jour", trace="T_Jour", mc=[("MC_Journey", {"LEVEL": (5, 6)})]),
    "Net": dict(gen="G_Net", trace="T_Net", mc=[("MC_Net", {"LEVEL": (4, 5)})]),
    "HD": dict(gen="G_HD", trace="T_HD", mc=[("MC_HD", {"LEVEL": (5, 7)})]),
}

TOGETHER = [("child", "key"), ("b58", "r"), ("master", "key"), ("dec", "r"), ("path", "vals"), ("gderive", "l"), ("seed", "r"), ("addrhex", "r")]

FAILED = lambda e: e["o"] == "err"

PROPS = {
    "C01": dict(suite="HD", size=(8, 100), sim=(100, 2000), false=[("master", "key"), ("root", "key"), ("master", "o"), ("root", "o")]),
    "C02": dict(suite="HD", size=(8, 100), sim=(300, 6000), false=[("child", "key"), ("child", "o")], guard=0.5),
    "C03": dict(suite="HD", size=(4, 80), sim=(300, 6000), false=[("child", "key", lambda e: e["o"] == "ok" and e["key"][90:92] != "00"), ("neuter", "key")], guard=0.1),
    "C04": dict(suite="HD", size=(8, 100), sim=(300, 6000), false=[("neuter", "key"), ("isprv", "v"), ("prvhex", "r"), ("pubhex", "r")], guard=0.6),
    "C05": dict(suite="HD", size=(8, 80), sim=(300, 6000), false=[("ser", "r"), ("b58", "r"), ("string", "r"), ("b58round", "key"), ("b58round", "r"), ("fields", "ver"), ("fields", "depth"),
                ("fields", "fp"), ("fields", "num"), ("fields", "cc"), ("fields", "kb"), ("fields", "pk"), ("setver", "key"), ("valid", "v")], guard=0.3),
    "C06": dict(suite="HD", size=(2, 20), sim=(200, 4000), false=[("valid", "v"), ("deser", "o"), ("b58deser", "o")]),
    "C07": dict(parts=[
        dict(suite="HD", size=(2, 10), sim=(200, 4000), false=[("child", "o", lambda e: e["o"] == "err")], guard=0.9),
        dict(suite="Wallet", size=(1, 10), steps=25, sim=(60, 2000), false=[("gderive", "o", lambda e: e["o"] == "err" and e["t"].count("2f") > 255),
             ("rgen", "o", lambda e: e["o"] == "err" and e["e"] == "ErrHardenedChildPublicKey")], guard=0.2)]),
    "C08": dict(suite="Path", size=(2, 20), steps=40, sim=(100, 3000), false=[("path", "vals"), ("path", "valid"), ("path", "o")]),
    "C09": dict(suite="Path", size=(4, 40), steps=40, sim=(100, 3000), false=[("valat", "v"), ("repl", "r"), ("repl", "o"), ("valat", "o")], guard=0.3),
    "C10": dict(suite="Wallet", size=(3, 40), steps=30, sim=(150, 3000), false=[("gderive", "l"), ("groot", "key"), ("gderive", "o")]),
    "C11": dict(suite="Wallet", size=(3, 40), steps=30, sim=(150, 3000), false=[("rgen", "l"), ("rgen", "o"), ("rgen", "same", lambda e: e["o"] == "err")], guard=0.6),
    "C12": dict(suite="Mnem", size=(1, 12), steps=40, sim=(20, 500), false=[("enc", "r"), ("dec", "r"), ("arr", "r"), ("enc", "o")]),
    "C13": dict(suite="Mnem", size=(1, 12), steps=60, sim=(20, 500), false=[("mvalid", "v"), ("dec", "o"), ("arr", "o"), ("seedchk", "o"), ("seedhex", "o")]),
    "C14": dict(suite="Mnem", size=(1, 12), steps=60, sim=(40, 800), false=[("widx", "v", lambda e: e["found"]), ("widx", "found"), ("wget", "r"), ("enc", "r"), ("dec", "r"), ("dec", "o")]),
    "C15": dict(suite="Mnem", size=(1, 12), steps=40, sim=(20, 300), false=[("seed", "r"), ("seedchk", "r"), ("seedhex", "r"), ("seedchk", "o"), ("seedhex", "o")]),
    "C16": dict(suite="Mnem", mc=[("MC_Lists", {})], size=(1, 12), false=[("words", "l"), ("enc", "r"), ("dec", "r")]),
    "C17": dict(suite="Rand", size=(1, 12), steps=30, sim=(60, 2000), false=[("entropy", "r", lambda e: e["o"] == "ok" and "pos" in e), ("newseed", "r", lambda e: e["o"] == "ok" and "pos" in e),
                ("genmn", "r", lambda e: e["o"] == "ok" and "pos" in e), ("entropy", "o"), ("newseed", "o"), ("genmn", "o")]),
    "C18": dict(suite="Addr", size=(2, 30), steps=30, sim=(80, 2000), false=[("addrhex", "r"), ("expand", "x"), ("expand", "y")], guard=0.5),
    "C19": dict(suite="Addr", size=(2, 30), steps=30, sim=(80, 2000), false=[("addrp2sh", "r"), ("hash160", "r"), ("checksum", "r"), ("addchecksum", "r")], guard=0.5),
    "C20": dict(suite="Reg", size=(1, 12), sim=(30, 800), false=[("versions", "l"), ("veridx", "l"), ("vermeth", "purpose", lambda e: e["purpose"][0] == "ok" and e["valid"]), ("vermeth", "coin", lambda e: e["coin"][0] == "ok" and e["valid"]), ("vermeth", "purposefull", lambda e: e["purposefull"][0] == "ok" and e["valid"]), ("vermeth", "coinfull", lambda e: e["coinfull"][0] == "ok" and e["valid"]), ("vermeth", "prvb"), ("vermeth", "pubb")], guard=0.2),
    "C21": dict(suite="Reg", size=(1, 12), sim=(30, 800), false=[("coins", "l"), ("coinidx", "l"), ("coinmeth", "v")]),
    "C28": dict(suite="Reg", size=(1, 12), sim=(30, 800), false=[("coinmeth", "str"), ("coinmeth", "md"), ("coinmeth", "good")]),
    "C22": dict(parts=[
        dict(suite="Conc", mc=[("MC_Conc", {"CALLS": (1, 2), "WORKERS": 1})], race=True, size=(1, 6), false=TOGETHER),
        dict(suite="Conc", mc=[], size=(3, 20), false=TOGETHER)]),
    "C24": dict(suite="UI", note="Every observation of the tool's window met the specification's obligation, apart from two known findings that the specification tells apart by history; the window system is a stand-in (harness/gioapp) that drives real frames with pointer and text events. Sessions are generated, not all sessions. Trusted: TLC, java/Prims.java, gioui.org's widgets, the stand-in.", size=(1, 8), steps=(20, 40), sim=(60, 1500), false=[("edit", "tabs"), ("edit", "details"), ("edit", "f"), ("tab", "details"), ("left", "details"), ("right", "details"), ("generate", "f"),
                ("generate", "tabs"), ("words", "f"), ("tab", "tabs"), ("words", "words"), ("edit", "words")], guard=0.8),
    "C25": dict(parts=[
        dict(suite="HD", size=(1, 10), sim=(60, 2000), false=[(op, "es", FAILED) for op in ("child", "deser", "b58deser", "ser", "root", "validprv")]),
        dict(suite="Path", size=(1, 10), steps=40, sim=(40, 1500), false=[(op, "es", FAILED) for op in ("path", "valat", "repl")], guard=0.5),
        dict(suite="Wallet", size=(1, 10), steps=30, sim=(60, 1500), false=[("gderive", "es", FAILED), ("rgen", "es", FAILED)]),
        dict(suite="Mnem", size=(1, 10), steps=60, sim=(20, 400), false=[(op, "es", FAILED) for op in ("enc", "dec", "arr", "seedchk", "seedhex")]),
        dict(suite="Rand", size=(1, 10), steps=30, sim=(40, 1000), false=[("entropy", "es", FAILED), ("genmn", "es", FAILED), ("newseed", "es", FAILED)]),
        dict(suite="Reg", size=(1, 10), sim=(20, 500), false=[("vermeth", "purpose", lambda e: e["purpose"][0] == "err"), ("vermeth", "coinfull", lambda e: e["coinfull"][0] == "err")], guard=0.1)]),
    "C26": dict(suite="Jour", size=(1, 8), steps=40, sim=(60, 1500), false=[("addrhex", "r"), ("addrp2sh", "r"), ("rgen", "l"), ("gderive", "l"), ("seedhex", "r"), ("root", "key"), ("b58deser", "key"),
                ("enc", "r"), ("dec", "r"), ("child", "key"), ("neuter", "key"), ("b58", "r"), ("prvhex", "r"), ("seedchk", "o"), ("child", "o")], guard=0.3),
    "C27": dict(suite="Net", size=(1, 40), steps=40, sim=(100, 3000), false=[("master", "key"), ("root", "key"), ("neuter", "key"), ("child", "key"), ("b58round", "key"), ("string", "r"), ("pubhex", "r"), ("fields", "ver"), ("valid", "v")], guard=0.3),
    "C23": dict(suite="Pure", size=(1, 12), steps=40, sim=(150, 3000), false=[("child", "key", "again"), ("neuter", "key", "again"), ("fields", "cc", "again"), ("master", "kept"), ("addchecksum", "kept"), ("expand", "kept"), ("deser", "kept")], guard=0.6),
}
