"""Which behaviours of the model, and which recorded sessions of the code, decide which property."""
import scen

D, X = scen.D, scen.X
ALLD = ["fix", "copy", "bytes", "rem", "pad", "null", "utf8", "mono", "map", "peek", "maybe", "slice", "omit", "maxb", "length",
        "collect", "collectn", "then", "tuple", "boxes", "dflt", "lazy", "shy"]
ALLX = ["fix", "bytes", "pad", "null", "mono", "opt", "map", "repeat", "length", "maxb", "pre", "slice", "last", "tuple", "boxes", "dflt", "lazy", "shy"]
ROOTD = ["fix", "copy", "bytes", "rem", "pad", "null", "mono", "utf8", "map", "trymap", "maperr", "peek", "maybe", "slice", "omit",
         "maxb", "length", "collect", "collectn", "andthen", "tuple", "box", "ref"]
KIDD = [k for k in ROOTD if k not in ("bytes", "maxb")] + ["late", "shy"]
ROOTX = ["fix", "bytes", "utf8", "pad", "null", "mono", "opt", "mapfrom", "trymapfrom", "maperr", "repeat", "length", "maxb", "pre",
         "slice", "last", "with", "tuple", "box", "ref"]
KIDX = [k for k in ROOTX if k not in ("pad", "with")] + ["late", "shy"]
FULL = ["E", "e", "n", "v", "b", "i", "r", "x", "a"]
IOF = ["E", "e", "n", "v", "b", "i", "pd", "wk", "rl", "rr", "re", "rf", "rs", "rc", "wl", "wr", "we", "wf", "ws", "wc", "eos", "wb",
       "got", "left", "rt", "wt"]


RF = ["E", "e", "v", "b", "i", "pd", "rl", "rr", "re", "rf", "rs", "rc", "left", "rt"]
WF = ["E", "e", "n", "i", "pd", "wl", "wr", "we", "wf", "ws", "wc", "got", "wt"]


def mcd(topics, fields, depth=(1, 2), **o):
    return dict(job="mc", module="MCDec", kind="dec", scen=scen.gather(D, topics), fields=fields, depth=depth, **o)


def mcx(topics, fields, depth=(1, 2), **o):
    return dict(job="mc", module="MCEnc", kind="enc", scen=scen.gather(X, topics), fields=fields, depth=depth, **o)


def anyd(topics, fields, n=4, depth=(0, 1), **o):
    return dict(job="mc", module="MCAny", kind="dec", scen=scen.any_dec(topics, n), fields=fields, depth=depth, **o)


def anyx(topics, fields, n=4, depth=(0, 1), **o):
    return dict(job="mc", module="MCAny", kind="enc", scen=scen.any_enc(topics, n), fields=fields, depth=depth, **o)


def mcx_of(module, make, kind, fields, depth=(0, 0), **o):
    """make(deep): the scenarios; only: the calls that count"""
    return dict(job="mc", module=module, kind=kind, scen=make, fields=fields, depth=depth, **o)


def drv(fields, make, kind): return mcx_of("MCDrv", make, kind, fields)
def helpd(fields): return mcx_of("MCAny", lambda deep: scen.any_help(ALLD, True), "dec", fields, (1, 2), only=["dx", "db"])
def helpx(fields): return mcx_of("MCAny", lambda deep: scen.any_help(ALLX, False), "enc", fields, (1, 2), only=["ea", "ei"])
def io(fields, make): return mcx_of("MCIo", make, "io", fields)


def rec(kinds, fields, count=(1500, 20000), **o):
    p = dict(kinds=kinds, droots=ROOTD, dkids=KIDD, eroots=ROOTX, ekids=KIDX, depth=3, big=5)
    p.update(o)
    return dict(job="rec", profile=p, fields=fields, count=count)


IODEC = ["fix", "copy", "bytes", "rem", "utf8", "map", "peek", "maybe", "length", "collectn", "andthen", "tuple"]
IOENC = ["fix", "bytes", "utf8", "null", "mono", "repeat", "length", "maxb", "slice", "last", "tuple"]


def rio(fields=IOF, count=(1500, 20000)):
    return rec(["io"], fields, count, droots=IODEC, dkids=["fix", "copy", "rem"], eroots=IOENC, ekids=["fix", "bytes", "utf8"])


PLAN = {
    "C01": [mcd(ALLD, ["E", "n", "v", "i"]), mcd(["many"], ["E", "n", "v", "i"], (0, 1)), rec(["dec"], ["E", "n", "v", "i"])],
    "C02": [mcx(ALLX, ["E", "b", "i"]), mcx(["many"], ["E", "b", "i"], (0, 1)), rec(["enc"], ["E", "b", "i"])],
    "C03": [anyd(ALLD + ["late"], ["e", "i", "v", "n"]), mcd(ALLD, ["e", "i", "v", "n"]), rec(["dec"], ["e", "i", "v", "n"])],
    "C04": [anyx(ALLX + ["late"], ["e", "i", "b"]), mcx(ALLX, ["e", "i", "b"]), rec(["enc"], ["e", "i", "b"])],
    "C05": [anyd(ALLD + ["late"], ["r", "i", "E"]), anyx(ALLX + ["hostile", "late"], ["r", "x", "i", "E"]), mcd(ALLD + ["fixall", "arity"], ["r", "i", "E"], (0, 1)), mcx(ALLX + ["fixall", "arity", "hostile"], ["r", "x", "i", "E"], (0, 1)),
            rec(["dec", "enc"], ["r", "x", "i", "E"])],
    "C06": [mcd(ALLD + ["arity"], ["e", "v"]), rec(["dec"], ["e", "v"])],
    "C07": [mcx(ALLX, ["e", "b"]), rec(["enc"], ["e", "b"])],
    "C08": [anyd(["length", "then", "late:length"], FULL), anyx(["length", "late:length"], FULL), mcd(["length", "then"], FULL, (2, 3)), mcx(["length"], FULL, (2, 3)), rec(["dec", "enc"], FULL, droots=["length"], eroots=["length"])],
    "C09": [anyd(["maxb", "late:maxb"], FULL), anyx(["maxb", "late:maxb"], FULL), mcd(["maxb"], FULL, (2, 3)), mcx(["maxb"], FULL, (2, 3)), rec(["dec", "enc"], FULL, droots=["maxb"], eroots=["maxb"])],
    "C10": [mcx_of("MCMux", scen.muxes, "multi", FULL + ["left"]), anyd(["slice", "late:slice"], FULL), anyx(["slice", "late:slice"], FULL), mcd(["slice"], FULL, (2, 3)), mcx(["slice"], FULL, (2, 3)), rec(["dec", "enc"], FULL, droots=["slice"], eroots=["slice"])],
    "C11": [anyd(["tuple", "then", "late"], FULL), anyx(["tuple", "late"], FULL), mcd(["tuple", "then", "arity"], FULL, (1, 2)), mcx(["tuple", "arity"], FULL, (1, 2)),
            rec(["dec", "enc"], FULL, droots=["tuple", "andthen"], eroots=["tuple"])],
    "C12": [anyd(["collect", "collectn", "then", "late"], FULL), anyx(["repeat", "late"], FULL), mcd(["collect", "collectn", "then"], FULL, (1, 2)), mcx(["repeat"], FULL, (2, 3)), mcd(["many"], FULL, (0, 1)), mcx(["many"], FULL, (0, 1)),
            rec(["dec", "enc"], FULL, droots=["collect", "collectn", "andthen"], eroots=["repeat"])],
    "C13": [anyd(["omit", "peek", "maybe", "late:omit", "late:peek", "late:maybe"], FULL), anyx(["opt", "last", "late:opt", "late:last"], FULL), mcd(["omit", "peek", "maybe"], FULL, (2, 3)), mcx(["opt", "last"], FULL, (2, 3)),
            rec(["dec", "enc"], FULL, droots=["omit", "peek", "maybe"], eroots=["opt", "last", "with"])],
    "C14": [anyd(["map", "utf8", "late:map", "late:trymap", "late:maperr", "late:utf8"], FULL), anyx(["map", "late:mapfrom", "late:trymapfrom", "late:maperr"], FULL), mcd(["map", "utf8"], FULL, (2, 3)), mcx(["map"], FULL, (2, 3)),
            rec(["dec", "enc"], FULL, droots=["map", "trymap", "maperr", "utf8"], eroots=["mapfrom", "trymapfrom", "maperr"])],
    "C15": [anyd(["fix"], FULL), anyx(["fix"], FULL), mcd(["fix", "fixall"], FULL, (2, 3)), mcx(["fix", "fixall"], FULL, (2, 3)),
            rec(["dec", "enc"], FULL, (4000, 40000), droots=["fix"], eroots=["fix"], fixall=True)],
    "C16": [anyd(["copy", "bytes", "bytes0", "rem", "pad", "null", "utf8"], FULL), anyx(["bytes", "pad", "null"], FULL), mcd(["copy", "bytes", "rem", "pad", "null", "utf8"], FULL, (2, 3)), mcx(["bytes", "pad", "null"], FULL, (2, 3)),
            rec(["dec", "enc"], FULL, (2500, 30000), droots=["copy", "bytes", "rem", "pad", "null", "utf8"], dkids=["copy", "rem", "length"],
                eroots=["bytes", "utf8", "pad", "null"])],
    "C17": [helpd(["E", "e", "v", "left"]), drv(["E", "e", "v", "left"], lambda deep: scen.drv_dec(ALLD), "dec"), drv(["E", "e", "v", "left"], lambda deep: scen.drv_big(deep), "dec"),
            rec(["dec"], ["E", "e", "v", "left"], (2500, 30000), helpers=100, big=30)],
    "C18": [helpd(["E", "b", "i", "v"]), helpx(["E", "b", "i", "v"]), drv(["E", "b", "i", "v"], lambda deep: scen.drv_slices(ALLD), "dec"), drv(["E", "b", "i", "v"], lambda deep: scen.drv_enc(ALLX), "enc"),
            drv(["E", "b", "i", "v"], lambda deep: scen.drv_encbig(deep), "enc"), rec(["dec", "enc"], ["E", "b", "i", "v"], (2000, 20000), helpers=60, big=30)],
    "C19": [io(RF, scen.io_reads), rio(RF)],
    "C20": [io(WF, scen.io_writes), rio(WF)],
    "C21": [io(IOF, scen.io_both), mcx_of("MCPump", lambda deep: scen.pumps(2 + deep), "io", IOF), dict(job="live", module="MCPump", scen=scen.pumps_live), rio()],
    "C22": [io(IOF, scen.io_poll), mcx_of("MCPump", lambda deep: scen.pumps(2), "io", IOF), rio()],
    "C23": [anyd(["mono"], FULL), anyx(["mono", "pre", "late:pre"], FULL), mcd(["mono"], FULL, (1, 2)), mcx(["mono", "pre"], FULL, (2, 3)), rec(["dec", "enc"], FULL, droots=["mono"], eroots=["mono", "pre"], ekids=["mono"]), rec(["dec", "enc"], FULL, (300, 3000), droots=["mono"], eroots=["mono", "pre"], ekids=["mono"], big=300, helpers=30),
            drv(FULL, lambda deep: scen.huge_msgs(True), "dec"), drv(FULL, lambda deep: scen.huge_msgs(False), "enc")],
    "C24": [mcx_of("MCAlg", scen.counts, "alg", ["e", "n", "i", "s", "a"]), rec(["alg"], ["e", "n", "i", "s", "a"], (1500, 15000))],
    "C25": [anyd(ALLD + ["hostile", "late"], ["E"]), anyx(ALLX + ["hostile", "late"], ["E"]), mcd(ALLD + ["hostile"], ["E"], (0, 1)), mcx(ALLX + ["hostile"], ["E"], (0, 1)),
            drv(["E"], lambda deep: scen.drv_dec(["hostile"]), "dec"), rec(["dec", "enc"], ["E"], (2500, 30000), liar=True, big=20),
            rec(["io"], ["E"], (1000, 10000), droots=IODEC, dkids=KIDD, eroots=IOENC, ekids=[k for k in KIDX if k != "last"])],
    "C26": [mcx_of("MCAny", scen.any_tag, "tag", FULL, (1, 2)), anyd(["boxes", "shy", "late"], FULL), anyx(["boxes", "shy", "late"], FULL), mcd(["boxes"], FULL, (2, 3)), mcx(["boxes"], FULL, (2, 3)), rec(["dec", "enc", "tag"], FULL, droots=["box", "ref"], eroots=["box", "ref"])],
    "C28": [anyd(["user", "late"], FULL, 4, (1, 2)), anyx(["user", "late"], FULL, 4, (1, 2)), mcd(["user"], FULL), mcx(["user"], FULL), rec(["dec", "enc"], FULL, droots=["tuple"], eroots=["tuple"], user=True)],
    "C29": [mcx_of("MCAny", lambda deep: scen.any_in(ALLD, True), "dec", FULL, (1, 2), only=["c", "in+"]),
            mcx_of("MCAny", scen.any_io, "io", IOF + ["a"], (0, 1)), anyd(["inmut"], FULL, 4, (0, 1)), anyx(["inmut"], FULL, 4, (0, 1)),
            mcx_of("MCAny", lambda deep: scen.any_in(ALLX, False), "enc", FULL, (1, 2), only=["c", "in+"])],
    "C27": [mcx_of("MCRound", scen.rounds, "multi", ["E", "v", "left"]), mcd(["tuple", "collect", "length", "fixall"], ["E", "n", "v", "i"], (0, 1)), mcx(["tuple", "repeat", "length", "fixall"], ["E", "b", "i"], (0, 1)),
            drv(["E", "v"], lambda deep: scen.huge_msgs(True), "dec"), drv(["E", "b", "i"], lambda deep: scen.huge_msgs(False), "enc"),
            rec(["dec", "enc"], ["E", "n", "v", "b", "i"])],
}
