"""What each property runs.

A property is decided by several engines in several build configurations. The
engine that was written for the property gets most of the executions; others,
whose oracles also notice a violation of it, contribute breadth.
"""
from driver import Job, shards, judge_valgrind, VALGRIND, judge_gdb, GDB

ASSUME = [
    "Observed on x86_64 and i686 Linux with the installed compilers; other architectures and operating systems are not executed.",
    "Executions are sampled: a violation needing a history, value or schedule outside the generated ones is missed.",
    "The harness's own reference machine, probes and signal handlers are trusted.",
]
NOTE = ("Exploration: the real library, built from the working tree in several target/optimisation/feature configurations, is executed on "
        "generated workloads and every execution is judged by an independent oracle; nothing is proved beyond the executions made. "
        "Trusts the compilers, the kernel and the harness's oracle; covers x86_64 and i686 Linux only.")

class Spec:
    def __init__(self, jobs, rule, technique, assumptions=(), minimum=None, note=""):
        self.jobs, self.rule, self.technique = jobs, rule + DISTINCT, technique
        self.assumptions = ASSUME + list(assumptions)
        self.minimum = minimum or {"distinct": 10}
        self.note = NOTE + (" " + note if note else "")
DISTINCT = "Distinct cases are counted per build configuration and summed. "

INTERP_RULE = ("interp: random coroutine programs (nested coroutines, on_stack, on_parent_stack, panics, forced unwinds, drops, "
               "stack reuse) executed on the library while every event is compared with a reference machine; a program is non-trivial "
               "when it makes at least 3 switches and shows 6 kinds of events, and distinct by the hash of its event log. ")
VALUES_RULE = ("values: every entry of a table of input/yield/return types is transferred in random sequences, each transfer compared bit "
               "for bit and by identity; a case is distinct by type entry and sequence. ")
CLOSURES_RULE = ("closures: capture types of every size and alignment class on stacks of varied sizes; distinct by type, stack size and "
                 "history. ")
REGS_RULE = ("regs: assembly probes plant random contents in every callee-saved register, the stack pointer and the floating-point control "
             "state around each kind of switch and compare them afterwards; distinct by history and contents. ")
DSTACK_RULE = ("dstack: default stacks of random sizes created, used, overflowed and destroyed while every mmap/mprotect/munmap is "
               "interposed, recorded, and optionally made to fail; distinct by operation sequence. ")
TRAPS_RULE = ("traps: hardware traps of several kinds raised at random points inside coroutines and recovered through the trap handler in "
              "a signal handler; stack-pointer probes around every bound; distinct by history. ")
BT_RULE = ("bt: at every checkpoint of random nestings the unwinder's frame list (or the frame-pointer chain) is compared with the list "
           "each ancestor recorded for itself; distinct by nesting shape. ")
CONFINE_RULE = ("confine: coroutines, on_stack and on_parent_stack over several custom stacks in varied address orders; profile all makes "
                "every stack that is not party to an operation inaccessible; profile step interrupts every instruction of the library's "
                "operations with a handler on the current stack which checks the stack pointer, overwrites everything below it and runs a "
                "coroutine of its own; distinct by history. ")
MT_RULE = ("mt: coroutines created, resumed, unwound and dropped on different threads in random hand-over orders, with independent ones "
           "running concurrently; distinct by history. ")
ABORTS_RULE = ("aborts: forked children run histories that must end in an abort, writing markers to a pipe; the exit status and the markers "
               "are compared with the expected ones; distinct by history. ")
RESET_RULE = "reset: random histories with force_reset at any point, checked against a ledger and status queries; distinct by history. "
STEADY_RULE = ("steady: forked children repeat switching patterns under a system-call filter and a counting allocator, comparing the stack "
               "pointer and the stack's high-water mark between rounds; distinct by pattern. ")
VG_RULE = ("vg: random histories run under memcheck; the log must be empty, each stack registered exactly during its life; planted genuine "
           "errors must be reported; distinct by history. ")
VGREQ_RULE = ("vgreq: the program steps through itself, recognises Valgrind's request sequences, answers them and compares them with the stacks "
              "that exist and the mapping calls, on both architectures; distinct by history. ")

DEEP_RULE = ("deep: chains of up to 700 coroutines resumed through each other in mixed ways and ended in every way, ladders of nested "
             "stack calls, populations of up to 5000 coroutines; all events compared with what the plan implies; distinct by plan. ")

LOCKS_RULE = ("locks: while one thread stands still at each instruction of its switches, a second one has to get through switches of its own; "
              "distinct by number of instructions, resumes and types. ")
CALLS_RULE = ("calls: every combination of 25 captured types and 14 result types run through on_stack, on_parent_stack, coroutine bodies and "
              "their nestings, ending by a return or a panic; distinct by types, kind of call, end and payload. ")

# ---------------------------------------------------------------- building blocks
ALLCFG = {
    "std": [("x64d", 1), ("x64r", 1.5), ("i686d", .7), ("i686r", 1)],
    "no": [("x64dn", .5), ("x64rn", .7), ("i686dn", .3), ("i686rn", .4)],
    "asan": [("asan", .3)],
    "asmu": [("asmud", .4)],
}
STD, NOUNW, ASAN, ASMU = (ALLCFG[k] for k in ("std", "no", "asan", "asmu"))
X64 = [("x64d", 1), ("x64r", 1.5)]
RELEASE = [("x64r", 1), ("i686r", .6)]

def eng(ctx, bin, profile, cfgs, n, tn, per=None, args=(), **kw):
    """Shards of one engine profile over the configurations [(config, share)]."""
    out = []
    for cfg, share in cfgs:
        total = max(1, int((tn if ctx.thorough else n) * share))
        p = per or max(1, -(-total // 4))
        out += shards(cfg, bin, (["--profile", profile] if profile else []) + list(args), total, max(1, min(total, p)), ctx.seed, **kw)
    return out

def interp(ctx, profile, cfgs, n=1500, tn=40000):
    return eng(ctx, "interp", profile, cfgs, n, tn, per=400 if not ctx.thorough else 4000)
def values(ctx, cfgs, n=1200, tn=30000):
    return eng(ctx, "values", "all", cfgs, n, tn)
def closures(ctx, profile, cfgs, n=800, tn=20000):
    return eng(ctx, "closures", profile, cfgs, n, tn)
def regs(ctx, profile, cfgs, n=800, tn=20000):
    return eng(ctx, "regs", profile, cfgs, n, tn)
def dstack(ctx, profile, cfgs, n=800, tn=20000):
    return eng(ctx, "dstack", profile, cfgs, n, tn)
def traps(ctx, profile, cfgs, n=800, tn=20000):
    return eng(ctx, "traps", profile, cfgs, n, tn)
def bt(ctx, profile, cfgs, n=800, tn=10000):
    return eng(ctx, "bt", profile, cfgs, n, tn)
def confine(ctx, profile, cfgs, n=800, tn=20000):
    return eng(ctx, "confine", profile, cfgs, n, tn)
def deep(ctx, profile, cfgs, n=160, tn=6000):
    return eng(ctx, "deep", profile, cfgs, n, tn)
def calls(ctx, cfgs, n=3000, tn=60000):
    return eng(ctx, "calls", None, cfgs, n, tn)
def locks(ctx, cfgs, n=32, tn=800):
    return eng(ctx, "locks", None, cfgs, n, tn, weight=2)
def mt(ctx, cfgs, n=400, tn=8000):
    return eng(ctx, "mt", None, cfgs, n, tn, weight=2)
FP = [("x64fp", 1), ("x64dfp", 1), ("i686fp", .6), ("i686dfp", .6)]

PROPS = {}
def prop(id, rule, technique, **kw):
    def deco(f):
        PROPS[id] = Spec(f, rule, technique, **kw)
        return f
    return deco

# ---------------------------------------------------------------- properties
@prop("C01", CALLS_RULE + VALUES_RULE + INTERP_RULE,
      "runtime monitoring: bit-exact and identity oracle on every transferred value; ASan builds")
def c01(ctx):
    return (values(ctx, STD + ASAN + NOUNW + ASMU) +
            eng(ctx, "values", "long", RELEASE, 5, 10, per=1, args=["--long", str(20_000_000 if ctx.thorough else 300_000)]) +
            eng(ctx, "values", "long", [("x64d", 1)], 5, 10, per=1, args=["--long", str(1_000_000 if ctx.thorough else 50_000)]) +
            calls(ctx, STD + NOUNW, 2000) +
            interp(ctx, "all", STD, 600, 10000) + interp(ctx, "flow", NOUNW, 400, 8000) + interp(ctx, "reuse", X64, 400, 8000))

@prop("C02", CALLS_RULE + DEEP_RULE + INTERP_RULE + VALUES_RULE + CLOSURES_RULE,
      "runtime monitoring: exactly-once ledger over random coroutine programs; ASan builds")
def c02(ctx):
    return (interp(ctx, "all", STD + ASAN + NOUNW + ASMU) + interp(ctx, "force", STD + ASMU, 1000) +
            interp(ctx, "panic", STD, 600, 10000) + interp(ctx, "life", STD + NOUNW, 600, 10000) +
            interp(ctx, "intercept", X64, 400, 8000) + interp(ctx, "onstack", STD + NOUNW, 400, 8000) + interp(ctx, "onparent", STD + NOUNW, 400, 8000) +
            values(ctx, X64 + ASAN, 500, 10000) + closures(ctx, "captures", STD + NOUNW, 400, 8000) +
            traps(ctx, "recover", X64, 200, 4000) +
            calls(ctx, X64 + ASAN) +
            deep(ctx, "chain", STD + NOUNW + ASAN, 80) + deep(ctx, "wide", X64, 30, 1500))

@prop("C03", DEEP_RULE + INTERP_RULE,
      "runtime monitoring: event traces compared online with a reference machine")
def c03(ctx):
    return (interp(ctx, "flow", STD + NOUNW + ASAN + ASMU) + interp(ctx, "all", STD + NOUNW, 1000, 20000) +
            interp(ctx, "onstack", STD, 600, 10000) + interp(ctx, "onparent", STD, 600, 10000) + interp(ctx, "force", STD, 400, 8000) +
            deep(ctx, "chain", STD + NOUNW + ASMU) + deep(ctx, "ladder", STD + NOUNW) + deep(ctx, "wide", STD + NOUNW, 60, 2000))

@prop("C04", INTERP_RULE,
      "runtime monitoring: lifecycle queries compared online with a reference machine")
def c04(ctx):
    return (interp(ctx, "life", STD + NOUNW + ASMU) + interp(ctx, "intercept", STD, 800, 15000) +
            interp(ctx, "all", STD + NOUNW, 800, 15000) + interp(ctx, "reuse", STD + NOUNW, 500, 10000) +
            interp(ctx, "panic", STD, 400, 8000) + traps(ctx, "recover", STD, 200, 4000) +
            closures(ctx, "captures", X64, 300, 6000) + closures(ctx, "refuse", X64, 100, 1000))

@prop("C05", CALLS_RULE + DEEP_RULE + INTERP_RULE,
      "runtime monitoring: panic traces compared online with a reference machine; ASan builds")
def c05(ctx):
    return (interp(ctx, "panic", STD + ASAN + ASMU) + interp(ctx, "all", STD, 1000, 20000) +
            interp(ctx, "onstack", STD, 500, 10000) + interp(ctx, "onparent", STD, 500, 10000) +
            interp(ctx, "reuse", STD, 300, 6000) + interp(ctx, "intercept", STD, 500, 10000) + interp(ctx, "foreign", STD + ASAN, 1500) +
            traps(ctx, "recover", STD, 200, 4000) +
            calls(ctx, STD + ASAN + ASMU) +
            deep(ctx, "chain", STD + ASAN + ASMU) + deep(ctx, "ladder", STD + ASMU))

@prop("C06", DEEP_RULE + INTERP_RULE,
      "runtime monitoring: forced-unwind traces compared online with a reference machine; ASan builds")
def c06(ctx):
    return (interp(ctx, "force", STD + ASAN + ASMU, 2000) + interp(ctx, "all", STD, 1000, 20000) +
            interp(ctx, "panic", STD, 400, 8000) + interp(ctx, "life", STD, 400, 8000) + interp(ctx, "intercept", STD, 800, 15000) + interp(ctx, "foreign", STD + ASMU, 2000) +
            interp(ctx, "onstack", STD, 500, 10000) + interp(ctx, "onparent", STD, 500, 10000) + regs(ctx, "probe", STD, 200, 4000) +
            deep(ctx, "chain", STD + ASAN + ASMU) + deep(ctx, "wide", X64, 60, 2000))

@prop("C07", INTERP_RULE + "collide: kept payloads of forced unwinds rethrown after 0 to 65 537 others on the same stack. ",
      "runtime monitoring: intercepted unwinds compared online with a reference machine")
def c07(ctx):
    return (interp(ctx, "intercept", STD + ASAN + ASMU, 2500) + interp(ctx, "foreign", STD + ASAN + ASMU, 2500) + interp(ctx, "force", STD, 800, 15000) + interp(ctx, "all", STD, 500, 10000) +
            deep(ctx, "collide", STD, 300, 6000))

@prop("C08", CLOSURES_RULE + INTERP_RULE,
      "runtime monitoring: exactly-once ledger over capture size/alignment sweep; ASan builds")
def c08(ctx):
    return (closures(ctx, "captures", STD + ASAN + NOUNW + ASMU, 1500) + interp(ctx, "life", STD + NOUNW, 1000, 20000) +
            interp(ctx, "force", STD, 500, 10000) + interp(ctx, "intercept", STD, 300, 6000) + closures(ctx, "abi", STD, 200, 4000))

@prop("C09", REGS_RULE + INTERP_RULE,
      "runtime monitoring: assembly register-image probes around every switch")
def c09(ctx):
    return (regs(ctx, "probe", STD + NOUNW + ASMU, 1000) + regs(ctx, "pressure", STD + NOUNW + [("x64o1", 1), ("x64os", 1)], 1000) +
            regs(ctx, "probe", [("x64fp", .5), ("i686fp", .5)], 600) +
            regs(ctx, "tight", STD + NOUNW + [("x64o1", 1), ("x64os", 1), ("x64fp", 1), ("i686fp", 1)], 150, 3000) +
            interp(ctx, "all", STD + NOUNW + [("x64o1", 1), ("x64os", 1)], 500, 10000) + traps(ctx, "recover", STD, 200, 4000) +
            bt(ctx, "dwarf", X64, 100, 1000))

@prop("C11", CLOSURES_RULE + INTERP_RULE,
      "runtime monitoring: stack-pointer and address alignment probes at every entry")
def c11(ctx):
    return (closures(ctx, "abi", STD + NOUNW + ASMU, 1500) + closures(ctx, "captures", STD + NOUNW, 800) +
            values(ctx, STD, 500, 10000) + interp(ctx, "onparent", STD + NOUNW, 500, 10000) + interp(ctx, "onstack", STD + NOUNW, 300, 6000) +
            traps(ctx, "recover", STD + NOUNW, 400, 8000) + regs(ctx, "probe", STD, 200, 4000))

@prop("C12", CLOSURES_RULE,
      "runtime monitoring: canaries, fault detection and ledger over capture size/alignment sweep")
def c12(ctx):
    return (closures(ctx, "refuse", STD + NOUNW, 600, 10000) + closures(ctx, "captures", STD + ASAN + NOUNW, 1200))

@prop("C13", DSTACK_RULE,
      "runtime monitoring: page probes and overflow fault-address monitor")
def c13(ctx):
    return (dstack(ctx, "size", STD, 1500) + dstack(ctx, "overflow", STD, 800) + dstack(ctx, "threads", RELEASE + [("x64d", .5)], 120, 2000) +
            dstack(ctx, "conserve", STD, 400) + traps(ctx, "recover", X64, 300))

@prop("C14", DSTACK_RULE + INTERP_RULE,
      "runtime monitoring: interposed mapping calls with conservation ledger and fault injection")
def c14(ctx):
    return (dstack(ctx, "conserve", STD, 1200) + dstack(ctx, "faults", STD, 1200) + dstack(ctx, "threads", RELEASE, 80, 1500) +
            dstack(ctx, "size", STD, 300) + interp(ctx, "reuse", STD + NOUNW, 600, 10000) + interp(ctx, "all", STD, 300, 6000) +
            interp(ctx, "onstack", STD, 300, 6000))

@prop("C15", DEEP_RULE + INTERP_RULE,
      "runtime monitoring: stack-reuse traces compared online with a reference machine")
def c15(ctx):
    return (interp(ctx, "reuse", STD + NOUNW + ASAN + ASMU, 2500) + interp(ctx, "all", STD, 500, 10000) + interp(ctx, "intercept", STD, 400, 8000) +
            traps(ctx, "recover", STD, 300, 6000) + closures(ctx, "captures", X64, 300, 6000) + dstack(ctx, "conserve", X64, 200, 4000) +
            deep(ctx, "wide", STD + NOUNW, 60, 2000))

@prop("C16", CALLS_RULE + DEEP_RULE + INTERP_RULE,
      "runtime monitoring: on_stack traces compared online with a reference machine, register and alignment probes")
def c16(ctx):
    return (interp(ctx, "onstack", STD + NOUNW + ASAN + ASMU, 2500) + interp(ctx, "all", STD + NOUNW, 500, 10000) +
            values(ctx, STD, 500, 10000) + regs(ctx, "probe", STD + NOUNW, 400, 8000) + closures(ctx, "abi", STD + NOUNW, 400, 8000) +
            bt(ctx, "dwarf", X64, 100, 1000) + dstack(ctx, "conserve", X64, 200, 4000) +
            calls(ctx, STD + NOUNW + ASMU) + deep(ctx, "ladder", STD + NOUNW + ASMU))

@prop("C17", CALLS_RULE + DEEP_RULE + INTERP_RULE,
      "runtime monitoring: on_parent_stack traces compared online with a reference machine, canaries, register probes")
def c17(ctx):
    return (interp(ctx, "onparent", STD + NOUNW + ASAN + ASMU, 2500) + interp(ctx, "all", STD + NOUNW, 500, 10000) +
            regs(ctx, "probe", STD + NOUNW, 400, 8000) + closures(ctx, "abi", STD + NOUNW, 600, 10000) + values(ctx, STD, 300, 6000) +
            bt(ctx, "dwarf", X64, 100, 1000) +
            calls(ctx, STD + NOUNW + ASMU) + deep(ctx, "ladder", STD + NOUNW + ASMU) + deep(ctx, "chain", STD, 80))

@prop("C18", TRAPS_RULE,
      "runtime monitoring: real traps recovered in signal handlers, outcome oracle")
def c18(ctx):
    return (traps(ctx, "recover", STD + NOUNW + ASMU, 1500) + traps(ctx, "bounds", STD, 200, 4000) + bt(ctx, "dwarf", X64, 100, 1000))

@prop("C19", TRAPS_RULE,
      "runtime monitoring: exact bounds probes before, during and after runs")
def c19(ctx):
    return (traps(ctx, "bounds", STD + NOUNW + ASMU, 1500) + traps(ctx, "recover", STD, 300, 6000))

@prop("C20", BT_RULE + "gdbt: random nestings run under gdb, whose backtraces at many points are compared with the chain the program announces; distinct by the chains. ",
      "runtime monitoring: unwinder output compared with every ancestor's own record")
def c20(ctx):
    return (bt(ctx, "dwarf", STD + ASMU, 500) + bt(ctx, "dwarf", [("x64dn", .4), ("x64rn", .4), ("x64fp", .4), ("i686fp", .4), ("x64os", .4)], 400, 6000) +
            interp(ctx, "panic", STD, 300, 6000) + interp(ctx, "force", STD, 300, 6000) +
            eng(ctx, "gdbt", None, STD + NOUNW, 60, 1500, wrap=GDB, judge=judge_gdb))

@prop("C21", BT_RULE,
      "runtime monitoring: frame-pointer chains compared with every ancestor's own record")
def c21(ctx):
    return bt(ctx, "fp", FP, 1500, 30000)


@prop("C10", CONFINE_RULE + DSTACK_RULE,
      "runtime monitoring: memory protection of every uninvolved stack, canaries and frame-address probes; ASan builds")
def c10(ctx):
    return (confine(ctx, "all", STD + NOUNW + ASAN, 2500) + closures(ctx, "captures", STD + NOUNW, 600, 10000) +
            closures(ctx, "refuse", STD, 200, 4000) + dstack(ctx, "overflow", X64, 200, 4000) + interp(ctx, "onparent", STD + ASAN, 400, 8000) +
            interp(ctx, "all", STD, 300, 6000) + traps(ctx, "recover", STD, 200, 4000))

@prop("C22", MT_RULE + LOCKS_RULE,
      "runtime monitoring: coroutines handed between threads compared with a model; ThreadSanitizer builds")
def c22(ctx):
    return (mt(ctx, STD, 1200) + mt(ctx, NOUNW, 600) + mt(ctx, [("asan", .3)], 200) + mt(ctx, [("tsan", 1), ("tsanr", 1)], 60, 2000) +
            dstack(ctx, "threads", RELEASE, 60, 1500) + locks(ctx, STD, 20))

@prop("C23", CONFINE_RULE,
      "runtime monitoring: single-stepping signal handler on the interrupted stack at every instruction",
      minimum=dict([("distinct", 10)] + [("stack_changes_stepped_" + k, 20) for k in
                   ("first_resume", "resume", "leave", "on_stack_in", "on_stack_out", "on_parent_in", "on_parent_out", "unwind")]))
def c23(ctx):
    return (eng(ctx, "confine", "step", STD, 300, 8000) + eng(ctx, "confine", "step", NOUNW, 160, 4000))

@prop("C24", ABORTS_RULE + INTERP_RULE + RESET_RULE,
      "runtime monitoring: child processes with markers, event traces compared with a reference machine")
def c24(ctx):
    n = NOUNW
    return (eng(ctx, "aborts", None, n, 3000, 60000) + interp(ctx, "all", n, 800, 15000) + interp(ctx, "life", n, 600, 10000) +
            interp(ctx, "onstack", n, 300, 6000) + interp(ctx, "onparent", n, 300, 6000) + interp(ctx, "reuse", n, 300, 6000) +
            interp(ctx, "flow", n, 300, 6000) + eng(ctx, "reset", None, n, 1000, 20000) + closures(ctx, "captures", n, 300, 6000) +
            traps(ctx, "recover", n, 200, 4000))

@prop("C25", ABORTS_RULE,
      "runtime monitoring: child processes with markers")
def c25(ctx):
    return eng(ctx, "aborts", None, STD + [("asmud", .3)], 8000, 120000)

@prop("C26", VG_RULE + VGREQ_RULE,
      "runtime monitoring: memcheck log and Valgrind's stack registrations compared with the program's own announcements, registration requests "
      "observed natively by single-stepping",
      minimum={"distinct": 10, "requests_recognised": 100},
      assumptions=["Valgrind itself runs x86_64 builds only (the i686 loader's debug symbols it requires are not installed); on i686 the requests "
                   "a Valgrind would see are monitored."])
def c26(ctx):
    out = []
    n, per = (800, 40) if ctx.thorough else (72, 18)
    cfgs = ["x64d", "x64r", "x64dn", "x64rn"]
    for c in cfgs:
        out += shards(c, "vg", ["--profile", "clean"], n, per, ctx.seed, wrap=VALGRIND, judge=judge_valgrind, cpu=300, wall=600)
        out += [Job(c, "vg", ["--profile", "reuse"], start=k, iters=1, wrap=VALGRIND, judge=judge_valgrind) for k in range(3)]
        kinds = range(20) if ctx.thorough or c == "x64d" else range(cfgs.index(c) % 4, 20, 4)
        out += [Job(c, "vg", ["--profile", "bug"], start=k, iters=1, wrap=VALGRIND, judge=judge_valgrind) for k in kinds]
    return out + eng(ctx, "vgreq", None, STD + NOUNW, 200, 8000)

@prop("C27", RESET_RULE,
      "runtime monitoring: reset histories checked against a ledger")
def c27(ctx):
    return eng(ctx, "reset", None, STD + NOUNW + ASAN + ASMU, 10000, 200000)

@prop("C28", STEADY_RULE + LOCKS_RULE,
      "runtime monitoring: system-call filter, counting allocator, stack-pointer probes; one thread stopped at every instruction of a switch while another switches",
      minimum=dict(distinct=10, instructions_stopped_at=20000, rounds_of_the_second_thread=15000, resumes_without_system_call=100000))
def c28(ctx):
    return (eng(ctx, "steady", None, STD + NOUNW, 400, 5000, args=["--rounds", "20000" if ctx.thorough else "3000"]) +
            locks(ctx, STD + NOUNW))
