"""What each check runs.  kind "model": TLC explores the specification itself.  kind "trace": the real code is
executed `quick`/`thorough` times by a harness and TLC must explain every recorded execution."""
def tr(harness, fam, trace, quick, thorough, **kw):
    return dict(kind="trace", harness=harness, fam=fam, trace=trace, quick=quick, thorough=thorough, **kw)
def mc(module, quick=None, thorough=None):
    d = dict(kind="model", module=module)
    if quick: d["quick"] = quick
    if thorough: d["thorough"] = thorough
    return d

A_SCHED = ["the scheduler's step points (lock, condition variable, thread, sleep operations, and sampled plain memory accesses) are where threads can affect each other",
           "sequentially consistent memory"]

import prep
A_SIM = ["the simulated filesystem behaves as btrfs does towards the system calls the daemon makes (extents, references, tree items, dedupe requests, renames, crashes between operations)",
         "a crash keeps what fsync or a transaction commit made durable; the daemon is otherwise the real program, started at main()"]
def dd(check, fam, quick, thorough):
    return tr("h_bees", fam, "DedupeTrace", quick, thorough, prep=prep.dedupe, constants={"Check": '"%s"' % check}, batch=1000)
def cc(check, fam, quick, thorough):
    return tr("h_bees", fam, "CoverageTrace", quick, thorough, prep=prep.coverage, constants={"Check": '"%s"' % check}, batch=1000)
def nm(quick, thorough):
    return tr("h_bees", "names", "NamesTrace", quick, thorough, prep=prep.names, batch=2000)
def lf(fam, quick, thorough):
    return tr("h_bees", fam, "LifeTrace", quick, thorough, prep=prep.life, batch=4000)
def hd(fam, quick, thorough):
    return tr("h_bees", fam, "HomeDirTrace", quick, thorough, prep=prep.home, batch=1000)
CMC = ({}, {"MaxTid": 5, "MaxCrash": 2})
DMC = ({"MaxPhys": 1}, {"MaxPhys": 2})
CHECKS = {
 "C01": dict(parts=[mc("TaskPoolMC", {"MaxOps": 3, "WithControl": "FALSE"}, {"MaxOps": 5, "WithControl": "FALSE"}),
                    tr("h_task", "basic", "TaskPoolTrace", 2500, 20000), tr("h_task", "order", "TaskPoolTrace", 800, 10000)], assumptions=A_SCHED),
 "C02": dict(parts=[mc("TaskPoolMC", {"MaxOps": 3, "WithControl": "FALSE"}, {"MaxOps": 5, "WithControl": "FALSE"}),
                    tr("h_task", "order", "TaskPoolTrace", 2500, 30000), tr("h_task", "basic", "TaskPoolTrace", 600, 8000)], assumptions=A_SCHED),
 "C03": dict(parts=[mc("TaskPoolMC", {"MaxOps": 3, "WithControl": "TRUE"}, {"MaxOps": 5, "WithControl": "TRUE"}),
                    tr("h_task", "control", "TaskPoolTrace", 3500, 40000)], assumptions=A_SCHED),
 "C04": dict(parts=[mc("TaskPoolMC", {"MaxOps": 3, "WithControl": "FALSE"}, {"MaxOps": 5, "WithControl": "FALSE"}),
                    tr("h_task", "excl", "TaskPoolTrace", 2500, 16000)], assumptions=A_SCHED),
 "C05": dict(parts=[mc("TaskPoolMC", {"MaxOps": 3, "WithControl": "FALSE"}, {"MaxOps": 5, "WithControl": "FALSE"}),
                    tr("h_task", "barrier", "TaskPoolTrace", 2500, 16000)], assumptions=A_SCHED),
 "C06": dict(parts=[mc("Progress"), tr("h_util", "progress", "ProgressTrace", 6000, 60000)], assumptions=A_SCHED),
 "C07": dict(parts=[mc("Cache"), tr("h_util", "cache", "CacheTrace", 6000, 40000)], assumptions=A_SCHED),
 "C08": dict(parts=[mc("Named"), mc("FdTable"), tr("h_util", "named", "NamedTrace", 4000, 30000), tr("h_util", "fd", "FdTableTrace", 4000, 30000)], assumptions=A_SCHED),
 "C09": dict(parts=[mc("Locks"), tr("h_util", "multilock", "LocksTrace", 4000, 30000), tr("h_util", "lockset", "LocksTrace", 4000, 30000)], assumptions=A_SCHED),
 "C10": dict(parts=[mc("ObjPool"), tr("h_util", "pool", "ObjPoolTrace", 6000, 40000)], assumptions=A_SCHED),
 "C13": dict(parts=[mc("HomeDirMC", {"MaxFiles": 4}, {"MaxFiles": 5, "MaxCrash": 3}), hd("crash", 700, 9000), hd("faults", 700, 9000), hd("state", 250, 4000), hd("signals", 250, 3000)], assumptions=A_SCHED + A_SIM),
 "C14": dict(parts=[mc("CoverageMC", *CMC), cc("C14", "quiet", 700, 8000), cc("C14", "crash", 500, 6000), cc("C14", "dedup", 500, 6000), cc("C14", "signals", 250, 3000)], assumptions=A_SCHED + A_SIM),
 "C15": dict(parts=[mc("CoverageMC", *CMC), cc("C15", "state", 900, 9000), cc("C15", "quiet", 250, 4000), cc("C15", "crash", 300, 4000), cc("C15", "dedup", 300, 4000), cc("C15", "signals", 150, 2000)], assumptions=A_SCHED + A_SIM),
 "C16": dict(parts=[mc("DedupeMC", *DMC), dd("C16", "dedup", 500, 6000), dd("C16", "crash", 250, 3000), dd("C16", "faults", 300, 4000), dd("C16", "names", 250, 3000), dd("C16", "signals", 150, 2000)], assumptions=A_SCHED + A_SIM),
 "C17": dict(parts=[mc("DedupeMC", *DMC), dd("C17", "dedup", 700, 8000), dd("C17", "quiet", 500, 6000), dd("C17", "toxic", 150, 2000), dd("C17", "crash", 150, 2000), dd("C17", "names", 150, 2000)], assumptions=A_SCHED + A_SIM),
 "C18": dict(parts=[mc("DedupeMC", *DMC), dd("C18", "quiet", 1500, 12000), dd("C18", "dedup", 300, 4000), dd("C18", "faults", 200, 3000)], assumptions=A_SCHED + A_SIM),
 "C19": dict(parts=[mc("ShareMC", {}, {"MaxLen": 3, "Copies": 1}), mc("ShareMC", {"Workers": "{1}", "Together": "TRUE"}, {"Workers": "{1, 2, 3}", "Copies": 3, "Firsts": 1}),
                    tr("h_bees", "share", "ShareTrace", 900, 10000, prep=prep.share, batch=1000)], assumptions=A_SCHED + A_SIM),
 "C20": dict(parts=[mc("DedupeMC", {"Users": "{1, 2, 3}", "Excl": "{2}", "RO": "{3}", "Contents": "{0, 1}", "MaxPhys": 1}, {"Users": "{1, 2}", "Excl": "{2}", "RO": "{}", "Contents": "{0, 1}", "MaxPhys": 2}),
                    dd("C20", "dedup", 700, 8000), dd("C20", "quiet", 400, 5000), dd("C20", "names", 300, 4000), dd("C20", "crash", 150, 2000)], assumptions=A_SCHED + A_SIM),
 "C21": dict(parts=[mc("NamesMC", None, {"MaxMoves": 5}), nm(3000, 40000)], assumptions=A_SCHED + A_SIM),
 "C23": dict(parts=[mc("LifeMC", None, {"Units": 4, "MaxSig": 5}), lf("signals", 1800, 25000), lf("crash", 400, 5000), lf("faults", 400, 5000), lf("quiet", 250, 3000), cc("C15", "signals", 300, 4000)], assumptions=A_SCHED + A_SIM),
 "C24": dict(parts=[mc("DedupeMC", *DMC), dd("C24", "toxic", 1200, 12000), dd("C24", "faults", 300, 4000)], assumptions=A_SCHED + A_SIM),
 "C26": dict(parts=[mc("Rate"), tr("h_util", "rate", "RateTrace", 4000, 30000), tr("h_util", "limit", "LimiterTrace", 4000, 30000)], assumptions=A_SCHED),
}
CHECKS["C11"] = dict(parts=[mc("HashIdxMC", None, {"NAddr": 4, "Cap": 4}), tr("h_hash", "index", "HashIdxTrace", 1000, 12000, batch=1000), tr("h_hash", "disk", "HashDiskTrace", 1200, 9000, constants={"Check": '"C11"', "History": "FALSE"}, batch=1200)], assumptions=A_SCHED + A_SIM)
CHECKS["C12"] = dict(parts=[mc("HashDiskMC", None, {"MaxOps": 6, "MaxFail": 2}), tr("h_hash", "disk", "HashDiskTrace", 2000, 20000, constants={"Check": '"C12"'}, batch=1000)], assumptions=A_SCHED + A_SIM)
CHECKS["C22"] = dict(parts=[mc("SeekMC", None, {"End": 10}), mc("FilesMC", None, {"N": 4}),
                            tr("h_tree", "search", "TreeTrace", 2000, 20000, batch=1000), tr("h_tree", "data", "TreeTrace", 1200, 12000, batch=1000), tr("h_tree", "sums", "TreeTrace", 1000, 8000, batch=1000),
                            tr("h_tree", "seek", "TreeTrace", 1500, 20000, batch=1500), tr("h_tree", "walk", "FilesTrace", 2500, 25000, constants={"Check": '"C22"'}, batch=2500)], assumptions=A_SIM[:1])
CHECKS["C25"] = dict(parts=[mc("AddressMC", None, {"Blocks": 3}), mc("RangesMC", None, {"Sz": 14}),
                            tr("h_tree", "addr", "AddressTrace", 1500, 15000, batch=1500), tr("h_tree", "range", "RangesTrace", 3000, 30000, batch=3000),
                            tr("h_tree", "walk", "FilesTrace", 1000, 10000, constants={"Check": '"C25"'}, batch=1000)], assumptions=A_SIM[:1])
TECH = {
 "C01": "TLA+ spec TaskPool model checked with TLC; traces of the real pool under a deterministic scheduler validated against it",
}
LEVEL_NOTE = {}
DEFAULT_NOTE = ("Exhaustive for the specification within the stated constants; for the code, every recorded execution "
                "(seeded random programs and schedules) is decided by TLC against the specification. Trusts the scheduler/simulator and TLC.")
NA = {}
