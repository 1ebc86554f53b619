"""One function per property."""


def seeds(c, n, runs, *args, base=0):
    """n shards of `runs' runs each, all seeds derived from VERIF_SEED"""
    return [["--n", runs, "--seed", c.seed * 10007 + base + k, *args] for k in range(n)]


def flow(c, spec, feats, need, quick=(8, 60), thorough=(64, 400)):
    n, runs = c.pick(quick, thorough)
    sh = []
    for k, f in enumerate(feats):
        sh += seeds(c, n, runs, "--feat", f, base=500 * k)
    c.conform("flow", spec, sh, need=need, limit=c.pick(300, 1500))


def p01(c):
    flow(c, "StreamsTrace", ["s", "sv"], ("wb", "we", "held", "idle", "opening", "unlink"))
    c.model("MCStreams", c.pick("MCStreams.cfg", "MCStreams_deep.cfg"))


def p02(c):
    flow(c, "StreamsTrace", ["sl", "slv"], ("wb", "we", "prop", "idle"))
    c.model("MCStreams", c.pick("MCStreams.cfg", "MCStreams_deep.cfg"))


def p03(c):
    flow(c, "MessagesTrace", ["m", "mv", "sm"], ("post", "pop", "peek", "wm", "idle", "unlink"), quick=(8, 35))
    c.model("MCMessages", c.pick("MCMessages.cfg", "MCMessages_deep.cfg"))


def p04(c):
    flow(c, "MessagesTrace", ["c", "mcv"], ("post", "slot", "probed", "ret", "sunlink", "idle"), quick=(8, 30))
    c.model("MCMessages", c.pick("MCMessages.cfg", "MCMessages_deep.cfg"))


def p05(c):
    n, runs = c.pick((8, 120), (64, 1500))
    c.conform("buf", "BuffersTrace", seeds(c, n, runs, "--acc", 0), need=("front", "take", "dup", "drop", "late", "same", "alias", "gather", "assign", "full"), limit=c.pick(300, 1500))
    c.model("MCBuffers", c.pick("MCBuffers.cfg", "MCBuffers_deep.cfg"))


def p06(c):
    n, runs = c.pick((8, 120), (64, 1500))
    c.conform("buf", "BuffersTrace", seeds(c, n, runs, "--acc", 1), need=("apush", "afront", "apop", "areq", "akeep", "gather", "assign", "full"), limit=c.pick(300, 1500))
    c.model("MCAccum", c.pick("MCAccum.cfg", "MCAccum_deep.cfg"))


def p09(c):
    n, runs = c.pick((8, 50), (64, 400))
    c.conform("pool", "PoolsTrace", seeds(c, n, runs), need=("pool", "set", "setdone", "in", "out", "kick", "settled", "freed"), limit=c.pick(300, 1500))
    c.model("ThreadEnv", c.pick("ThreadEnv.cfg", "ThreadEnv_deep.cfg"))


def p07(c):
    flow(c, "ActorTrace", ["smca", "smcav"], ("in", "out", "activated", "deactivated", "ret", "idle"), quick=(8, 30))
    c.model("ActorLock", c.pick("ActorLock.cfg", "ActorLock_deep.cfg"))


def p08(c):
    flow(c, "StreamsTrace", ["sl", "sv"], ("idle", "wb", "we"), quick=(8, 20))
    flow(c, "StreamsTrace", ["sck", "smckv"], ("idle", "wb", "we", "res"), quick=(8, 100))
    flow(c, "MessagesTrace", ["smc", "mck"], ("idle", "slot", "pop"), quick=(8, 15))
    c.model("ActorLock", c.pick("ActorLock.cfg", "ActorLock_deep.cfg"))


def p11(c):
    flow(c, "ActorTrace", ["sav", "satv", "smcatv"], ("in", "out", "activated", "deactivated", "athrow", "commit", "act", "freed", "idle"), quick=(8, 20))
    c.model("MCActor", c.pick("MCActor.cfg", "MCActor_deep.cfg"))


def p23(c):
    flow(c, "StreamsTrace", ["slt"], ("we", "idle"), quick=(8, 30))
    flow(c, "MessagesTrace", ["mct"], ("slot", "idle", "cthrow"), quick=(8, 20))
    flow(c, "ActorTrace", ["smcatv"], ("cthrow", "ccaught", "athrow", "dthrow", "idle"), quick=(8, 20))
    c.model("MCActor", c.pick("MCActor.cfg", "MCActor_deep.cfg"))


def p10(c):
    n, runs = c.pick((8, 60), (64, 600))
    c.conform("topo", "TopoTrace", seeds(c, n, runs, "--pass", 1) + seeds(c, n // 2, runs, "--pass", 0, base=700), need=("connect", "commit", "probe", "dump", "end"), limit=c.pick(300, 1500))
    c.model("MCTopo", c.pick("MCTopo.cfg", "MCTopo_deep.cfg"))


def p12(c):
    n, runs = c.pick((8, 60), (64, 600))
    c.conform("topo", "TopoTrace", seeds(c, n, runs, "--pass", 0, base=100) + seeds(c, n // 2, runs, "--pass", 1, base=800), need=("connect", "disconnect", "dall", "ports", "dump", "stats", "held"), limit=c.pick(300, 1500))
    c.model("MCTopo", c.pick("MCTopo.cfg", "MCTopo_deep.cfg"))


def p13(c):
    n, runs = c.pick((8, 45), (64, 400))
    c.conform("reg", "RegistryTrace", seeds(c, n, runs), need=("call", "ret", "hev", "path", "joined"), limit=c.pick(300, 1500))
    c.model("MCRegistry", c.pick("MCRegistry.cfg", "MCRegistry_deep.cfg"))


def p19(c):
    n, runs = c.pick((8, 150), (64, 1500))
    c.conform("util", "QueuesTrace", seeds(c, n, runs, "--locks", 0), need=("pushb", "pushf", "popf", "popb", "setcap", "clear", "copy", "move", "look", "qpush", "qpop"), limit=c.pick(300, 1500))
    c.model("MCQueues", c.pick("MCQueues.cfg", "MCQueues_deep.cfg"))


def p20(c):
    n, runs = c.pick((8, 300), (64, 3000))
    c.conform("util", "LocksTrace", seeds(c, n, runs, "--locks", 1), need=("in", "out", "ends"), limit=c.pick(300, 1500))
    c.model("SpinLocks", c.pick("SpinLocks.cfg", "SpinLocks_deep.cfg"))


def p14(c):
    n, runs = c.pick((8, 150), (64, 1500))
    c.conform("obj", "ObjectsTrace", seeds(c, n, runs, "--what", 0), need=("make", "boxed", "set", "done", "mset", "inner", "died", "unique", "ref", "extract", "same", "end"), limit=c.pick(300, 1500))
    c.model("MCObjects", c.pick("MCObjects.cfg", "MCObjects_deep.cfg"))


def p18(c):
    n, runs = c.pick((8, 150), (64, 1500))
    c.conform("arc", "ArchiveTrace", seeds(c, n, runs), need=("save", "load", "cut", "alien", "cannot"), limit=c.pick(300, 1500))
    c.model("MCArchive", c.pick("MCArchive.cfg", "MCArchive_deep.cfg"))


def p17(c):
    n, runs = c.pick((8, 120), (64, 1000))
    c.conform("rem", "RemoteTrace", seeds(c, n, runs), need=("made", "did", "call", "ret", "dup", "drop", "dropped", "died", "lost", "bye", "server", "end"), limit=c.pick(300, 1500))
    c.model("MCRemote", c.pick("MCRemote.cfg", "MCRemote_deep.cfg"))
    c.model("Transact", c.pick("Transact.cfg", "Transact_deep.cfg"))


def p24(c):
    n, runs = c.pick((8, 150), (64, 1500))
    c.conform("obj", "ValuesTrace", seeds(c, n, runs, "--what", 1), need=("conv", "vconv", "oconv", "cmp", "scmp", "bytes", "cannot", "maps", "text", "hop", "went", "nan"), limit=c.pick(300, 1500))
    c.model("MCValues", c.pick("MCValues.cfg", "MCValues_deep.cfg"))


def p15(c):
    n, runs = c.pick((8, 120), (64, 1000))
    c.conform("call", "CallsTrace", seeds(c, n, runs, "--mode", "callable"), need=("mk", "copy", "bind", "unbind", "num", "type", "ccall", "hit", "cret", "end"), limit=c.pick(300, 1500))
    c.model("MCCalls", c.pick("MCCalls.cfg", "MCCalls_deep.cfg"))


def p16(c):
    n, runs = c.pick((8, 100), (64, 800))
    c.conform("call", "ManagedTrace", seeds(c, n, runs, "--mode", "managed"), need=("commit", "unload", "find", "lookup", "call", "hit", "ret", "delete", "forget", "end"), limit=c.pick(300, 1500))
    c.model("MCManaged", c.pick("MCManaged.cfg", "MCManaged_deep.cfg"))


def p21(c):
    n, runs = c.pick((6, 150), (48, 1500))
    c.conform("eval", "DTypesTrace", seeds(c, n, runs, "--mode", "dtype"), need=("dtype", "again", "same", "end"), limit=c.pick(300, 1500))
    c.model("MCDTypes", "MCDTypes.cfg")


def p22(c):
    n, runs = c.pick((8, 60), (64, 500))
    c.conform("eval", "MakeTopoTrace", seeds(c, n, runs, "--mode", "make"), need=("make", "ctor", "did", "built", "ports", "block", "dump", "fire", "got", "quiet", "left"), limit=c.pick(300, 1500))
    c.model("MCMakeTopo", c.pick("MCMakeTopo.cfg", "MCMakeTopo_deep.cfg"))


def p25(c):
    n, runs = c.pick((8, 120), (64, 1200))
    c.conform("eval", "EvalTrace", seeds(c, n, runs, "--mode", "eval"), need=("const", "object", "forget", "broken", "eval", "end"), limit=c.pick(300, 1500))
    c.model("MCEval", c.pick("MCEval.cfg", "MCEval_deep.cfg"))


def p26(c):
    n, runs = c.pick((8, 80), (64, 700))
    c.conform("dom", "DomainsTrace", seeds(c, n, runs), need=("connect", "disconnect", "commit", "probe", "end"), limit=c.pick(300, 1500))
    c.model("MCDomains", c.pick("MCDomains.cfg", "MCDomains_deep.cfg"))
    if c.thorough:
        c.model("MCDomains", "MCDomains.cfg")
        c.model("MCDomains", "MCDomains_deep2.cfg")


def p27(c):
    n, runs = c.pick((8, 60), (64, 600))
    c.conform("proc", "ProcessesTrace", seeds(c, n, runs), need=("connect", "disconnect", "commit", "probe", "gone", "end"), limit=c.pick(300, 1500))
    c.model("MCProcesses", c.pick("MCProcesses.cfg", "MCProcesses_deep.cfg"))


CHECKS = {k.upper(): v for k, v in globals().items() if len(k) == 3 and k[0] == "p" and k[1:].isdigit()}
