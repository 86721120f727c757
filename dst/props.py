"""The properties and the campaigns that decide them."""
import json, os
import core, genk, palmk, rtk, selfhost

GEN_REAL = ["cocogen front end, checks, attribute scheduler and back end", "copra phase driver, traversal core and copy/free/check traversals (as used by cocogen)", "palm", "bison/flex parser", "glibc stdio buffering"]
GEN_STUB = ["heap (malloc family)", "file system and descriptors", "console", "clock, pid, randomness, environment variables"]


RT_REAL = ["cocogen (generates the compiler)", "the generated sources", "copra phase driver, traversal core", "palm", "glibc stdio buffering"]
RT_STUB = ["heap (malloc family)", "console", "file system", "user callbacks (passes, traversal functions, gates, equations, breakpoint handler) with seeded behaviour"]
RT_ASS = ["user callbacks keep the library's contract: they release what they replace and return a node or NULL"]
PALM_REAL, PALM_STUB = ["palm hash tables, diagnostics, memory and string functions"], ["heap (malloc family)", "console", "callers with seeded behaviour"]


class P:
    def __init__(self, campaign, measure, rule, real=GEN_REAL, stub=GEN_STUB, assumptions=()):
        self._c, self.measure, self.rule, self.real, self.stub, self.ass = campaign, measure, rule, real, stub, list(assumptions)

    def setup(self, ctx):
        ctx.real, ctx.stub, ctx.assumptions = self.real, self.stub, self.ass

    def campaign(self, ctx):
        self._c(ctx)

    def known(self, ctx):
        """replay every known finding of this property: it must still be there"""
        for e in core.load_known():
            if e["property"] != ctx.prop or e.get("status") != "known" or not e.get("case"):
                continue
            case = json.load(open(os.path.join(core.VERIF, e["case"])))
            (_, res), = ctx.execute([case])
            core.check_simerr(res)
            vs = core.REG[case["kind"]].judge(case, res)
            if vs:
                ctx.violation(case, res, vs)


FS_ASS = ["the simulated disk follows POSIX semantics for the calls the code makes; a failing close loses the unflushed tail"]

PROPS = {
    "P01": P(lambda c: genk.campaign_io(c, "P01", c.scale(560, 5000), c.scale(24, 60)), "fault_points",
             "a case is a specification with an I/O fault plan (error, sticky error, torn write, full disk, console failure, several at once); non-trivial: distinct (specification, fault) pairs", assumptions=FS_ASS),
    "P02": P(lambda c: genk.campaign_io(c, "P02", c.scale(560, 5000), c.scale(24, 60)), "fault_points",
             "as P01, with an independent stream of specifications and fault plans; non-trivial: distinct (specification, fault) pairs", assumptions=FS_ASS),
    "P03": P(lambda c: genk.campaign_alloc(c, c.scale(900, 8000), c.scale(40, 120)), "fault_points",
             "a case is a specification with failing allocations (one, or one and all later), some with an I/O fault on top; non-trivial: distinct (specification, fault) pairs"),
    "P04": P(lambda c: genk.campaign_crash(c, c.scale(600, 6000), c.scale(20, 50)), "crash_schedules",
             "a case is a sequence of generator runs killed at chosen operations (optionally with lost unsynced data), ended by a fault-free run; non-trivial: distinct schedules", assumptions=FS_ASS),
    "P05": P(lambda c: genk.campaign_env(c, c.scale(1400, 12000), c.scale(12, 30)), "environments",
             "a case is a specification run under another heap layout, fill pattern, reuse policy, read/write chunking, clock and output directory state; non-trivial: distinct (specification, environment) pairs"),
    "P06": P(lambda c: genk.campaign_invalid(c, c.scale(3000, 30000), c.scale(6, 14)), "scenarios",
             "a case is a specification with one language rule broken, run fault-free, under I/O, allocation and console faults, and over an output directory with older files; non-trivial: distinct (specification, scenario) pairs"),
    "P19": P(lambda c: genk.campaign_robust(c, c.scale(4500, 45000), c.scale(4, 10)), "environments",
             "a case is a valid, invalid or damaged specification run under several heap layouts, fill patterns, reuse policies and read/write chunkings; non-trivial: distinct (input, environment) pairs"),
    "P26": P(lambda c: genk.campaign_describe(c, c.scale(1400, 12000), c.scale(6, 14)), "environments",
             "a case is a valid specification run with and without the listing, under several heap layouts, read/write chunkings, I/O faults, after crashes and over older output; non-trivial: distinct (specification, environment) pairs", assumptions=FS_ASS),
    "P27": P(lambda c: genk.campaign_cmdline(c, c.scale(900, 9000), c.scale(16, 40)), "command_lines",
             "a case is a valid specification and a command line (options in any order, number and spelling, breakpoints at the generator's own actions, wrong options and values), under several heap layouts, chunkings and failing allocations; non-trivial: distinct (specification, command line, environment)"),
    "P28": P(lambda c: selfhost.campaign(c, c.scale(2400, 24000), c.scale(6, 12)), "environments",
             "a case is an input (valid, invalid or damaged specification, the project's own ones) and pairs of runs under one plan (options, heap layout, chunking, earlier files, file and console errors, crashes): the release build against a build with assertions, one from the generator's own generated sources, and one of both; non-trivial: distinct (input, build, plan)"),
    "P07": P(lambda c: genk.campaign_contain(c, c.scale(600, 6000), c.scale(16, 40)), "scenarios",
             "a case is a generator run (fault-free, crashing, failing) in a directory with neighbouring files; non-trivial: distinct scenarios"),
    "P29": P(lambda c: palmk.campaign(c, "dbg", c.scale(10000, 120000), 4), "histories",
             "a case is a history of debug output, assertions (in builds with and without them) and directories to be made, fault-free, with failing file operations and with a failing console; non-trivial: distinct histories",
             real=["palm debug output and directory functions"], stub=["file system calls", "console", "callers with seeded behaviour"]),
    "P21": P(lambda c: palmk.campaign(c, "map", c.scale(10000, 120000), 4), "histories",
             "a case is a history of operations on up to four hash tables (string, pointer, integer, colliding keys), fault-free and with failing allocations; non-trivial: distinct operation sequences", real=PALM_REAL, stub=PALM_STUB),
    "P24": P(lambda c: palmk.campaign(c, "str", c.scale(10000, 120000), 4), "histories",
             "a case is a history of string and memory operations on a pool of live strings, fault-free and with failing allocations; non-trivial: distinct operation sequences", real=PALM_REAL, stub=PALM_STUB),
    "P22": P(lambda c: palmk.campaign(c, "cti", c.scale(10000, 120000), 4), "histories",
             "a case is a history of diagnostics, queries and aborts, fault-free, with failing allocations and with a failing console; non-trivial: distinct sequences", real=PALM_REAL, stub=PALM_STUB),
}
HIST = "a case is a random valid specification, compiled, and one history of its run: every decision of the user code is drawn from the seed; non-trivial: distinct sequences of callbacks and operations per specification"
for _id, _c in [("P08", rtk.c_order), ("P09", rtk.c_cycle), ("P10", rtk.c_error), ("P11", rtk.c_break), ("P12", rtk.c_check), ("P13", rtk.c_dispatch), ("P14", rtk.c_data),
                ("P15", rtk.c_copy), ("P16", rtk.c_free), ("P17", rtk.c_oom), ("P18", rtk.c_ag), ("P20", rtk.c_init), ("P25", rtk.c_access)]:
    PROPS[_id] = P(_c, "histories", HIST, real=RT_REAL, stub=RT_STUB, assumptions=RT_ASS)
