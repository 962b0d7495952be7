"""One function per property."""
import os
import subprocess

import vlib as v

CHECKS = {}


def check(prop):
    def reg(f):
        CHECKS[prop] = f
        return f
    return reg


def part(ctx, comp, mod, mcs, gens, trace="Trace.cfg", args="", race=False, extra_scripts=None, driver=None,
         clock=False, env=None):
    """Model check the specification, generate behaviours from it, run them
    against the code, validate the recorded runs."""
    if ctx.replay and ctx.replay["comp"] != comp:
        return
    drv = v.build(ctx, driver or comp, race=race, clock=clock)
    if ctx.replay:
        scripts = [ctx.replay["script"]]
    else:
        for module, cfg in mcs:
            v.model_check(ctx, comp, module, cfg, timeout=700 if ctx.quick else 3000)
        scripts = []
        for module, cfg, num, depth in gens:
            scripts += v.generate(ctx, comp, module, cfg, num, depth)
        if extra_scripts:
            scripts += extra_scripts
    traces = v.drive(ctx, drv, scripts, args=args, timeout=600 if ctx.quick else 3000, env=env)
    v.validate(ctx, comp, mod, trace, traces, timeout=600 if ctx.quick else 3000)


def standard(ctx, *a, **kw):
    part(ctx, *a, **kw)
    return v.finish(ctx)


@check("C15")
def c15(ctx):
    q = ctx.quick
    return standard(ctx, "walletstore", "WalletStoreTrace",
                    [("WalletStoreMC", "MC.cfg"), ("WalletStoreMC", "MCcred.cfg")] + ([] if q else [("WalletStoreMC", "MCbig.cfg")]),
                    [("WalletStoreGen", "Gen.cfg", 250 if q else 4000, 40),
                     ("WalletStoreGen", "GenOld.cfg", 16 if q else 200, 60)])


SESSION_VARIANTS = [  # generator configuration, runs (quick, thorough), depth, arguments of the driver
    ("Gen1.cfg", (60, 1500), 40, "nk=1,store=mem,parties=2"),
    ("Gen2.cfg", (40, 1000), 40, "nk=2,store=db,parties=2"),
    ("Gen3.cfg", (60, 1500), 45, "nk=3,store=mem,parties=3"),
    ("Gen2.cfg", (30, 600), 40, "nk=50,store=ce,parties=2"),
    ("GenMono.cfg", (1, 4), 900, "nk=50,store=mem,parties=2"),
    ("GenLag.cfg", (1, 6), 480, "nk=50,store=db,parties=2"),
    ("GenMonoOut.cfg", (2, 8), 420, "nk=50,store=db,parties=2"),
]

SESSION_CRASHES = [
    ("GenCrash1.cfg", (70, 1500), 45, "nk=1,store=db,parties=2", "SessionCrashGen"),
    ("GenCrash2.cfg", (50, 1000), 45, "nk=2,store=db,parties=2", "SessionCrashGen"),
]


def session(ctx, mcs, variants, mod, trace, skip_ce=False):
    drv = v.build(ctx, "session")
    q = ctx.quick
    if ctx.replay:
        traces = v.drive(ctx, drv, [ctx.replay["script"]], args=ctx.replay["args"])
        v.validate(ctx, "session", ctx.replay.get("mod", mod), ctx.replay.get("cfg", trace), traces)
        return v.finish(ctx)
    for cfg in mcs:
        v.model_check(ctx, "session", "Conversation" if cfg == "ConvMC.cfg" else
                      "SessionCrashMC" if "crash" in cfg else "SessionMC", cfg,
                      timeout=700 if q else 3000)
    for i, (cfg, (nq, nt), depth, args, *gen) in enumerate(variants):
        scripts = v.generate(ctx, "session", gen[0] if gen else "SessionGen", cfg, nq if q else nt, depth, seed=ctx.seed * 31 + i,
                             timeout=600 if q else 3000)
        traces = v.drive(ctx, drv, scripts, args=args, timeout=600 if q else 3000)
        n = int(args.split("nk=")[1].split(",")[0])
        m, t = (mod, trace % n if "%" in trace else trace)
        if gen and mod == "SessionTrace":
            m, t = "KeysTrace", "KeysTrace.cfg"
        rej = v.validate(ctx, "session", m, t, traces, timeout=600 if q else 3000)
        for r in rej:
            r["args"] = args
            r["mod"] = m
    return v.finish(ctx)


@check("C01")
def c01(ctx):
    return session(ctx, ["MC.cfg", "MCcrash.cfg"] if ctx.quick else ["MC.cfg", "MC3.cfg", "MCbig.cfg", "MCcrash.cfg", "MCcrash2.cfg"],
                   SESSION_VARIANTS + SESSION_CRASHES,
                   "ConversationTrace", "ConvTrace.cfg")


@check("C02")
def c02(ctx):
    return session(ctx, ["ConvMC.cfg"],
                   [("GenTamper.cfg", (120, 3000), 36, "nk=2,store=mem,parties=3"),
                    ("GenTamper.cfg", (30, 800), 36, "nk=50,store=ce,parties=3")],
                   "ConversationTrace", "ConvTrace.cfg")


@check("C03")
def c03(ctx):
    return session(ctx, ["MC.cfg"] if ctx.quick else ["MC.cfg", "MC3.cfg", "MCbig.cfg", "MCcrash2.cfg"],
                   [x for x in SESSION_VARIANTS if "store=ce" not in x[3]] + SESSION_CRASHES, "SessionTrace", "SessTrace%d.cfg")


def all_lengths():
    """Every content length around the powers of two and the limit, signed and not."""
    base = {"op": "Enc", "idl": 15, "doml": 11, "upd": 0, "nym": 30, "start": True, "next": False, "seen": False,
            "d1": 1, "d2": 1, "status": "ok"}
    return [[dict(base, len=n, sign=s) for n in range(a, min(a + 400, 41700))]
            for a in range(0, 41700, 400) for s in (False, True)]


@check("C04")
def c04(ctx):
    q = ctx.quick
    return standard(ctx, "msgsize", "MsgSizeTrace", [("MsgSizeMC", "MC.cfg")],
                    [("MsgSizeGen", "Gen.cfg", 60 if q else 600, 80)],
                    extra_scripts=None if q else all_lengths())


@check("C05")
def c05(ctx):
    q = ctx.quick
    return standard(ctx, "keydb", "KeyDBTrace",
                    [("KeyDBMC", c) for c in (["MC1.cfg", "MC2.cfg", "MC3.cfg"] if q else ["MCbig1.cfg", "MC2.cfg", "MCbig3.cfg"])],
                    [("KeyDBGen", "Gen.cfg", 120 if q else 3000, 120)])


IDENTITY_ALPHABET = [97, 65, 48, 49, 106, 45, 46, 32, 95, 123, 122, 57]


@check("C09")
def c09(ctx):
    q = ctx.quick
    al = IDENTITY_ALPHABET
    sweeps = [[{"op": "Sweep", "where": w}] for w in ("first", "mid", "last")]
    n = 2 if q else 4
    every = [[{"op": "All", "alphabet": al, "prefix": [a], "n": k} for k in range(n)] for a in al]
    every += [[{"op": "All", "alphabet": al, "prefix": [a, b], "n": n} for b in al] for a in al]
    # every pair of ASCII characters inside a name
    asc = [c for c in range(128) if c != 64]
    every += [[{"op": "All", "alphabet": asc, "prefix": [98, a], "n": 1} for a in asc[i:i + 16]] for i in range(0, 128, 16)]
    return standard(ctx, "identity", "IdentityTrace", [("IdentityMC", "MC.cfg" if q else "MCbig.cfg")],
                    [("IdentityGen", "Gen.cfg", 40 if q else 1500, 150)], extra_scripts=sweeps + every)


def uid_records():
    """Every alteration of every field of a record, checked as it is, self-signed
    again, and signed again as an update; every alteration of a confirmation."""
    menu = [("ver", ["1.1", "", "2.0", "1.0"]), ("count", [1, 3]), ("after", [1]), ("before", [1]), ("mix", ["m"]), ("nym", ["m"]),
            ("id", ["bob@mute.berlin", "alice@mute.one", "Alice@mute.berlin", "jane@mute.berlin", "alice", "", "keyserver@mute.one"]),
            ("skcs", ["other", "", "p"]), ("skfn", ["ECDHE25519", ""]), ("skhash", [-1, -2, 6, 500005]), ("skpub", [-1, -2, 6]), ("sk", [6, 9]),
            ("pks", [0, 2]), ("pkcs", ["other", "", "p"]), ("pkfn", ["ED25519", ""]), ("pkhash", [-1, 5, 500006]), ("pkpub", [-1, 5]),
            ("escrow", ["none", "zero", "other"]), ("escfn", ["ED25519"]), ("last", ["bad", "", "other"]),
            ("repos", [[], ["mute.one"], ["mute.berlin", "mute.berlin"], ["mute.berlin", "x"], ["x", "mute.berlin"]]),
            ("fs", ["mandatory", "optional", "x", ""]), ("suites", [[], ["other"]]), ("link", [["l"]]), ("linkx", ["LAST", "IDENTITY", "AUTHORITATIVE", "DOMAINS"]), ("eschash", [5, -1]), ("escpub", [5, -1]), ("esc", ["x"]), ("auth", ["x"]),
            ("self", [0, -1, -2]), ("user", [0, -1, -2]), ("same", [0])]
    out = []
    for esc in (False, True):
        for i in range(0, len(menu), 4):
            s = [{"op": "New", "id": "alice@mute.berlin", "fs": "strict", "esc": esc, "mix": "", "nym": "", "last": "good"},
                 {"op": "Update", "h": 1}]
            n = 2
            for f, values in menu[i:i + 4]:
                for v in values:
                    s += [{"op": "Alter", "h": 1, "f": f, "v": v}, {"op": "SignR", "h": n + 1, "k": 1},
                          {"op": "Alter", "h": 2, "f": f, "v": v}, {"op": "SignU", "h": n + 3, "k": 1}]
                    s += [{"op": o, "h": n + j} for o in ("Check", "Self") for j in (1, 2, 3, 4)]
                    s += [{"op": "User", "h": n + j, "p": 1} for j in (3, 4)] + [{"op": "User", "h": 2, "p": n + 1}]
                    n += 4
            out.append(s)
    # identities and their first repository
    for ident in ("alice@mute.berlin", "alice@mute.one", "keyserver@mute.one"):
        for last in ("good", "other", "bad", ""):
            s = [{"op": "New", "id": ident, "fs": fs, "esc": False, "mix": x, "nym": x, "last": last}
                 for fs in ("strict", "optional", "mandatory") for x in ("", "m")]
            if last in ("good", "other") or ident.startswith("keyserver"):
                s += [{"op": o, "h": h} for h in range(1, 7) for o in ("Check", "Self")]
            out.append(s)
    s = [{"op": "New", "id": "alice@mute.berlin", "fs": "strict", "esc": False, "mix": "", "nym": "", "last": "good"}, {"op": "Update", "h": 1},
         {"op": "Alter", "h": 1, "f": "user", "v": -1}]
    n = 0
    for a, b, c in [(1, 1, 1), (1, 1, 2), (1, 2, 1), (2, 1, 1), (1, 1, 3), (2, 2, 2), (2, 2, 1)]:
        s.append({"op": "Confirm", "a": a, "b": b, "c": c, "pos": n, "k": 2000001})
        n += 1
        s += [{"op": "VerSrv", "p": n, "h": h, "k": k} for h in (1, 2, 3) for k in (2000001, 2000002, -1)]
    for f, values in (("hc", ["f", "e"]), ("pos", [5, 0]), ("broken", [1, 2, 11, 31, 32, 33, 48, 49]), ("sig", [0, -1, -2])):
        for v in values:
            s += [{"op": "AltRep", "p": 1, "f": f, "v": v}, {"op": "VerSrv", "p": n + 1, "h": 1, "k": 2000001},
                  {"op": "Resign", "p": n + 1, "k": 2000001}, {"op": "VerSrv", "p": n + 2, "h": 1, "k": 2000001}]
            n += 2
    return out + [s]


def uid_keyinits():
    """Every alteration of every field of a key initialisation message."""
    day = 86400
    menu = [("ver", ["1.1", "", "1.0"]), ("count", [0, 1, 2]), ("after", [-60, -1, 0, 1, 60, 400 * day, -400 * day]), ("before", [-100, 100, day - 1, day, day + 1, 2 * day]),
            ("fallback", [True, False]), ("skh", [9, 6, -1]), ("repo", ["mute.one", "mute.berlin", ""]), ("broken", [1, 2, 3]), ("sig", [-1, -2, 0])]
    def key(fn, n, **kw):
        return dict({"cs": "default", "fn": fn, "hash": n, "pub": n}, **kw)
    anchors = [[], [key("ECDHE25519", 10)], [key("ECDHE25519", 10, hash=-1)], [key("ECDHE25519", 10, hash=6)], [key("ECDHE25519", 10, pub=-1)],
               [key("ECDHE25519", 10, pub=-2)], [key("ECDHE25519", 10, cs="other")], [key("ECDHE25519", 10, cs="")], [key("ECDHE25519", 10, cs="p")], [key("ECDHE25519", 10, hash=500010)], [key("ED25519", 5), key("ECDHE25519", 10)], [key("ED25519", 5)],
               [key("ECDHE25519", 10), key("ECDHE25519", 6)]]
    def ask(m):
        return ([{"op": "CheckKI", "m": m}] + [{"op": "VerKI", "m": m, "uris": u, "k": k} for k in (5, 9) for u in (["mute.berlin"], ["mute.one"])]
                + [{"op": "EntryKI", "m": m, "k": k} for k in (5, 9)])
    new = [{"op": "New", "id": i, "fs": "strict", "esc": False, "mix": "", "nym": "", "last": "good"} for i in ("alice@mute.berlin", "bob@mute.berlin")]
    out = []
    for fallback in (True, False):
        s = new + [{"op": "MakeKI", "h": 1, "count": 0, "after": day, "before": -100, "fallback": fallback, "repo": "mute.berlin", "mix": "n", "nym": "n"}]
        n = 1
        for f, values in menu:
            for v in values:
                s += [{"op": "AltKI", "m": 1, "f": f, "v": v}, {"op": "SignK", "m": n + 1, "k": 1}, {"op": "SignK", "m": n + 1, "k": 2}]
                s += ask(n + 1) + ask(n + 2) + ask(n + 3) + [{"op": "SrvKI", "m": n + 1, "o": 1, "k": 2000001, "s": x} for x in (0, 1, 2)]
                n += 3
        out.append(s)
    s = new + [{"op": "MakeKI", "h": 1, "count": 0, "after": day, "before": -100, "fallback": False, "repo": "mute.berlin", "mix": "n", "nym": "n"}]
    n = 1
    for ks in anchors:
        for fix in (True, False):
            for k in (5, 9):
                s += [{"op": "Anchor", "m": 1, "k": k, "keys": ks, "fix": fix}, {"op": "SignK", "m": n + 1, "k": 1}] + ask(n + 2)
                n += 2
    out.append(s)
    s = new + []
    n = 0
    for h, repo in ((1, "mute.berlin"), (1, "mute.one"), (2, "mute.berlin")):
        for after in (-60, -1, 0, 1, 60, 90 * day - 60, 90 * day, 90 * day + 1, 90 * day + 60, 400 * day):
            for before in (-100, after - 1, after, after + 1):
                s.append({"op": "MakeKI", "h": h, "count": 0, "after": after, "before": before, "fallback": False, "repo": repo, "mix": "", "nym": ""})
                if before < after and 0 <= after <= 90 * day and repo == "mute.berlin":
                    n += 1
                    s += ask(n)
    return out + [s]


@check("C07")
def c07(ctx):
    q = ctx.quick
    return standard(ctx, "uid", "UidTrace",
                    [("UidMC", "MCbig_rec.cfg"), ("UidMC", "MC_rep.cfg" if q else "MCbig_rep.cfg")],
                    [("UidGen", "Gen_rec.cfg", 100 if q else 3000, 100)], extra_scripts=uid_records(), clock=True)


@check("C08")
def c08(ctx):
    q = ctx.quick
    part(ctx, "uid", "UidTrace", [("UidMC", "MCbig_ki.cfg")], [("UidGen", "Gen_ki.cfg", 120 if q else 3000, 100)],
         extra_scripts=uid_keyinits(), clock=True)
    # the engine that fetches them
    return standard(ctx, "chain", "ChainTrace", [("ChainMC", "MC_own.cfg")], [("ChainGen", "Gen_ki.cfg", 60 if q else 1000, 60)])


def msgdb(ctx, part, mcs):
    q = ctx.quick
    return standard(ctx, "msgdb", "MsgDBTrace", [("MsgDBMC", c) for c in mcs], [("MsgDBGen", "Gen_%s.cfg" % part, 100 if q else 2500, 120)])


@check("C11")
def c11(ctx):
    return msgdb(ctx, "out", ["MC_out.cfg"] if ctx.quick else ["MCbig_out.cfg"])


@check("C12")
def c12(ctx):
    return msgdb(ctx, "in", ["MC_in.cfg"] if ctx.quick else ["MCbig_in.cfg"])


@check("C13")
def c13(ctx):
    return msgdb(ctx, "book", ["MC_book.cfg"] if ctx.quick else ["MCbig_book.cfg"])


@check("C21")
def c21(ctx):
    q = ctx.quick
    look = [{"op": "Lookup", "m": 1, "k": k, "flip": False, "v": 0} for k in range(1, 4)]
    maintained = [{"op": "Maintain", "m": 1}, {"op": "WaitKey", "m": 1}, {"op": "Statement", "m": 1}] + look + [
        {"op": "Advance", "d": 101}, {"op": "WaitKey", "m": 1}, {"op": "Statement", "m": 1}] + look + [
        {"op": "Advance", "d": 950}, {"op": "WaitKey", "m": 1}, {"op": "Statement", "m": 1}, {"op": "Boundary", "m": 1}] + look
    return standard(ctx, "mixaddr", "MixAddrTrace", [("MixAddrMC", "MC.cfg" if q else "MCbig.cfg")],
                    [("MixAddrGen", "Gen.cfg", 250 if q else 3000, 81)], clock=True, race=True,
                    env={"GORACE": "halt_on_error=1"}, extra_scripts=[maintained])


@check("C22")
def c22(ctx):
    q = ctx.quick
    return standard(ctx, "mime", "MimeTrace", [("MimeMC", "MC.cfg" if q else "MCbig.cfg")],
                    [("MimeGen", "Gen.cfg", 60 if q else 1500, 40)])


@check("C23")
def c23(ctx):
    q = ctx.quick
    return standard(ctx, "editor", "EditorTrace", [("TextBufMC", "MC_text.cfg" if q else "MCbig_text.cfg"), ("EditorMC", "MC_edit.cfg")],
                    [("EditorGen", "Gen.cfg", 100 if q else 3000, 80)])


@check("C18")
def c18(ctx):
    q = ctx.quick
    return standard(ctx, "keypool", "KeyPoolTrace", [("KeyPoolMC", "MC.cfg" if q else "MCbig.cfg")],
                    [("KeyPoolGen", "Gen.cfg", 150 if q else 4000, 100)], race=True, clock=True,
                    env={"GORACE": "halt_on_error=1"})


@check("C16")
def c16(ctx):
    q = ctx.quick
    return standard(ctx, "guard", "WalletTrace", [("WalletMC", "MCwallet.cfg" if q else "MCwalletbig.cfg")],
                    [("WalletGen", "WalletGen.cfg", 300 if q else 8000, 31)], trace="WalletTrace.cfg", clock=True)


def recv_alterations():
    """Every alteration of a token, with every parameter."""
    pre = [{"op": "Online", "on": True}, {"op": "List", "list": [], "modes": ["ok"]}]
    pre += [{"op": "Key", "signer": s, "u": u, "life": 1000} for s in ("s1", "s2") for u in ("Message", "UID")]
    pre += [{"op": "Token", "k": 1, "o": o} for o in ("me", "a", "none")] + [{"op": "Token", "k": 2, "o": "me"}]
    alts = [("same", 0), ("forge", 1), ("mod", 0), ("trail", 0), ("empty", 0)]
    alts += [(f, 0) for f in ("flag", "r", "s", "rx", "ry", "zero", "zeror", "zeropt", "neg")]
    alts += [("key", v) for v in (1, 2, 3, 4)] + [("sigof", v) for v in (1, 2, 3, 4)]
    alts += [("unkkey", v) for v in range(0, 32, 3)] + [("nonce", v) for v in range(0, 16, 3)] + [("bitowner", v) for v in range(0, 32, 5)]
    alts += [(f, v) for f in ("shift", "shiftkey") for v in range(1, 16)] + [("cut", v) for v in range(1, 101, 3)]
    alts += [("byte", v) for v in range(0, 1000, 4)]
    alts += [("owner", o) for o in ("me", "a", "b")]
    out = []
    for t in (1, 2, 3):
        for i in range(0, len(alts), 20):
            s, n = list(pre), 4
            for f, v in alts[i:i + 20]:
                o = v if f == "owner" else "a"
                s.append({"op": "Alter", "t": t, "f": f, "v": 0 if f == "owner" else v, "o": o, "b": (t * 3 + (v if f == "byte" else 0)) % 8})
                n += 1
                s += [{"op": "Verify", "t": n, "modes": []}, {"op": "Receive", "t": n, "u": "UID" if f == "key" and v % 2 == 0 else "Message", "modes": []}]
            out.append(s)
    return out


@check("C17")
def c17(ctx):
    q = ctx.quick
    return standard(ctx, "guard", "RecvTrace", [("RecvMC", "MCrecv.cfg" if q else "MCrecvbig.cfg")],
                    [("RecvGen", "RecvGen.cfg", 250 if q else 8000, 61)], trace="RecvTrace.cfg", clock=True,
                    extra_scripts=recv_alterations())


@check("C10")
def c10(ctx):
    q = ctx.quick
    return standard(ctx, "chain", "ChainTrace", [("ChainMC", ("MC_%s.cfg" if q else "MCbig_%s.cfg") % s) for s in ("sync", "scan", "own")],
                    [("ChainGen", "Gen_chain.cfg", 100 if q else 2500, 60), ("ChainGen", "Gen_ki.cfg", 30 if q else 600, 60)])


def encdb_points():
    """Every crash point of a change of the passphrase and of a commit."""
    out = []
    for mode in ("kill", "ENOSPC", "EIO"):
        for what, last in (("Rekey", 60), ("Put", 60)):
            for lo in range(0, last, 10):
                s = [{"op": "Create", "p": 2, "iter": 10}, {"op": "Put", "p": 2, "b": 1}]
                for nth in range(lo, lo + 10):
                    s += [{"op": "Crash", "what": what, "p": 2, "q": 8, "iter": 10, "b": nth + 2, "av": "", "nth": nth, "mode": mode, "at": 0},
                          {"op": "Rekey", "p": 8, "q": 2, "iter": 10}]
                out.append(s)
    return out


@check("C06")
def c06(ctx):
    q = ctx.quick
    return standard(ctx, "encdb", "EncDBTrace", [("EncDBMC", "MC.cfg")], [("EncDBGen", "Gen.cfg", 100 if q else 2500, 40)],
                    extra_scripts=encdb_points())


def config_alterations():
    """Every alteration of a configuration and of a certificate, one after the other, each followed by an update."""
    def pub(s, alt, v, h, key="trusted"):
        return {"op": "Publish", "s": s, "alt": alt, "v": v, "d": 0, "hash": h, "key": key}
    up = {"op": "Update"}
    alts = [(a, v) for a in ("value", "keyname", "drop", "dropall", "null", "shift", "shift2", "merge", "merge8", "swap",
                             "hash", "nohash", "date", "signone", "other", "siglong", "imageonly", "cutoff", "huge", "same")
            for v in (0, 1)]
    alts += [("add", v) for v in range(4)] + [("garbage", v) for v in range(9)] + [("sigbit", v) for v in range(64)]
    alts += [("sigcut", v) for v in range(0, 64, 3)] + [("trunc", v) for v in range(0, 400, 7)]
    alts += [("byte", v) for v in range(0, 1000)]
    certs = [(a, v) for a in ("silent", "evil", "garbage", "empty", "notcert", "append", "prepend", "cutoff") for v in (0,)]
    certs += [("bit", v) for v in range(0, 2000, 9)] + [("trunc", v) for v in range(0, 200, 5)]
    out = []
    for i in range(0, len(alts), 40):
        s = [{"op": "Cert", "s": 1, "c": 1, "alt": "none", "v": 0}, pub(1, "none", 0, 1), up]
        for a, v in alts[i:i + 40]:
            s += [pub(1, a, v, 1), up]
        out.append(s + [pub(2, "none", 0, 0), up])
    for i in range(0, len(certs), 20):
        s = [{"op": "Cert", "s": 1, "c": 1, "alt": "none", "v": 0}, pub(1, "none", 0, 1), up, pub(1, "none", 0, 2)]
        for a, v in certs[i:i + 20]:
            s += [{"op": "Cert", "s": 2, "c": 2, "alt": a, "v": v}, up]
        out.append(s + [{"op": "Cert", "s": 3, "c": 2, "alt": "none", "v": 0}, up])
    return out


@check("C19")
def c19(ctx):
    q = ctx.quick
    return standard(ctx, "config", "ConfigTrace", [("ConfigMC", "MCconfig.cfg" if q else "MCconfigbig.cfg")],
                    [("ConfigGen", "ConfigGen.cfg", 300 if q else 8000, 41)], trace="ConfigTrace.cfg", clock=True,
                    extra_scripts=config_alterations())


def mix_alterations(step):
    """Every alteration of addresses, wrapped messages and messages passed on, each opened by those it is for."""
    nym = {"op": "NewNym", "sec": 1, "box": 1, "nym": 2, "sys": 0, "single": False, "min": 1, "max": 2, "exp": 1000,
           "cands": [{"m": 1, "exp": 2000}]}
    nym2 = dict(nym, sec=1, box=1, nym=3)
    relay = {"op": "Relay", "n": 0, "b": 1, "size": 4096, "tok": 3, "min": 5, "max": 6}
    recv = {"op": "Receive", "e": 0, "m": 1, "force": False}
    out = []

    def chunks(l, n, f):
        for i in range(0, len(l), n):
            out.append(f(l[i:i + n]))
    nyms = [(f, v) for f, m in (("cut", 600), ("trail", 3), ("mixpub", 3), ("mixbit", 256), ("mixcut", 32), ("addrkey", 255), ("spare", 1),
                                ("keycut", 32), ("keyzero", 1), ("priv", 2400), ("privcut", 300), ("privext", 3), ("splice", 1))
            for v in range(0, m, step if m > 10 else 1)]

    def onnym(l):
        s = [nym2, nym]
        for i, (f, v) in enumerate(l):
            s += [{"op": "AlterNym", "n": -2, "f": f, "v": v, "o": -1}]
            s += [{"op": "Open", "n": 0, "m": m, "force": fo} for m, fo in ((1, False), (1, True), (2, False))]
        return s
    chunks(nyms, 40, onnym)
    envs = [(f, v) for f, m in (("to", 3), ("tobit", 256), ("sender", 255), ("spare", 1), ("senderzero", 1), ("nonce", 256), ("body", 1000),
                                ("tag", 128), ("cut1", 20), ("head", 115), ("ext", 3), ("splice", 1)) for v in range(0, m, step if m > 10 else 1)]

    def onenv(l):
        s = [nym, relay, relay]
        for i, (f, v) in enumerate(l):
            s += [{"op": "AlterEnv", "e": -2, "f": f, "v": v, "o": -1}, dict(recv, force=True), recv]
        return s
    chunks(envs, 40, onenv)
    msgs = [(f, v) for f, m in (("bit", 2000), ("cut1", 20), ("head", 300), ("ext", 3), ("hlen", 8), ("sender", 256), ("nonce", 256), ("recpub", 256),
                                ("encnym", 272), ("encnymlen", 8), ("nymcut", 32), ("nymext", 3), ("hmac", 256), ("hmaccut", 32), ("shift1", 32),
                                ("shift2", 32), ("shift3", 32), ("splice", 1), ("nymsplice", 1), ("sendersplice", 1))
            for v in range(0, m, step if m > 10 else 1)]

    def onmsg(l):
        s = [nym2, relay, recv, {"op": "SendOn", "r": 0}, nym, relay, recv, {"op": "SendOn", "r": 0}]
        for i, (f, v) in enumerate(l):
            s += [{"op": "AlterMsg", "x": -2, "f": f, "v": v, "o": -1}, {"op": "Final", "x": 0, "sec": 1, "box": 1}]
        return s
    chunks(msgs, 40, onmsg)
    craft = [{"op": "Craft", "m": 1, "f": f, "v": v, "size": z} for z in (0, 255, 256, 1024, 4096, 65536)
             for f, m in (("type", 6), ("len", 14), ("tok", 3), ("revoke", 6), ("addr", 6), ("nym", 32), ("dercut", 50), ("derflip", 400)) for v in range(m)]
    chunks(craft, 100, lambda l: l)
    return out


@check("C20")
def c20(ctx):
    q = ctx.quick
    return standard(ctx, "mix", "MixTrace", [("MixMC", "MCmix.cfg" if q else "MCmixbig.cfg")],
                    [("MixGen", "MixGen.cfg", 500 if q else 5000, 61)], trace="MixTrace.cfg", clock=True,
                    extra_scripts=mix_alterations(1 if not q else 5))


def mail(ctx, mcs, gens):
    """The driver interposes its own writes to kill a run in between."""
    so = os.path.join(ctx.work, "crash.so")
    r = subprocess.run(["gcc", "-shared", "-fPIC", "-O2", "-o", so, os.path.join(v.VERIF, "harness/mail/crash.c"), "-ldl"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise v.HarnessError("building crash.so failed:\n" + r.stdout)
    return standard(ctx, "mail", "MailTrace", mcs, gens, args="so=" + so)


@check("C14")
def c14(ctx):
    q = ctx.quick
    return mail(ctx, [("MCSend", "SendMC.cfg"), ("MCSend", "BothMC.cfg")] if q else
                [("MCSend", "SendMCbig.cfg"), ("MCSend", "BothMCbig.cfg")],
                [("MailGen", "GenSend.cfg", 140 if q else 3000, 41), ("MailGen", "GenRecv.cfg", 20 if q else 500, 41)])


@check("C25")
def c25(ctx):
    q = ctx.quick
    return mail(ctx, [("MCRecv", "RecvMC.cfg"), ("MCSend", "BothMC.cfg")] if q else
                [("MCRecv", "RecvMCbig.cfg"), ("MCSend", "BothMCbig.cfg")],
                [("MailGen", "GenRecv.cfg", 140 if q else 3000, 41), ("MailGen", "GenSend.cfg", 20 if q else 500, 41)])


@check("C24")
def c24(ctx):
    q = ctx.quick
    return standard(ctx, "app", "AppTrace", [("AppMC", "MC.cfg" if q else "MCbig.cfg")],
                    [("AppGen", "Gen.cfg", 150 if q else 2500, 41)], race=True)
