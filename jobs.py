"""What each check runs: engines (translation units), build flavours, and jobs per property."""
import os
FUZZLIB = "/usr/lib/llvm-18/lib/clang/18/lib/linux/libclang_rt.fuzzer_no_main-x86_64.a"
COMMON = ["-std=c++17", "-O1", "-gline-tables-only", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-Wno-everything"]
UBSAN = ["-fsanitize=address,undefined", "-fno-sanitize=pointer-overflow,nonnull-attribute", "-fno-sanitize-recover=all"]
FLAVORS = {
    "asan": dict(cxx="clang++", flags=COMMON + UBSAN + ["-fsanitize=fuzzer-no-link"], ldflags=["-Wl,-u,LLVMFuzzerRunDriver", FUZZLIB], deterministic=True),
    # the other compiler, with the checking containers of libstdc++
    "gccdbg": dict(cxx="g++", flags=["-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-D_GLIBCXX_DEBUG", "-w", "-fsanitize=address,undefined", "-fno-sanitize=pointer-overflow,nonnull-attribute", "-fno-sanitize-recover=all"], deterministic=True),
    "fiberasan": dict(cxx="clang++", flags=COMMON + UBSAN, deterministic=True),
    "fibertsan": dict(cxx="clang++", flags=COMMON + ["-fsanitize=thread", "-fsanitize-ignorelist=" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness/tsan_ignore.txt")], deterministic=True),
    "threadasan": dict(cxx="clang++", flags=COMMON + UBSAN, deterministic=False),
    "tsan": dict(cxx="clang++", flags=COMMON + ["-fsanitize=thread"], deterministic=False),
    # extreme sizes: no shadow memory, undefined arithmetic still reported
    "fastub": dict(cxx="clang++", flags=["-std=c++17", "-O2", "-gline-tables-only", "-fno-omit-frame-pointer", "-Wno-everything", "-fsanitize=undefined", "-fno-sanitize=pointer-overflow,nonnull-attribute", "-fno-sanitize-recover=all"], deterministic=True),
}
# calls of operator new in the engine go through a wrapper that can be told to fail
WRAP = dict(flags=["-DVP_WRAP_NEW"], ldflags=["-Wl,--wrap=_Znwm,--wrap=_Znam,--wrap=_ZnwmSt11align_val_t,--wrap=_ZnwmRKSt9nothrow_t,--wrap=_ZnamRKSt9nothrow_t"])
ENGINES = {
    "buffers": dict(tus=[dict(src="buffers.cpp")], **WRAP),
    # end iterators form addresses from unset table slots; null/alignment checks would flag the address computation, so they are off here
    "blocks": dict(tus=[dict(src="blocks_main.cpp")] + [dict(src="blocks_cfg.cpp", defs=[f"-DCFG={i}"]) for i in range(14)],
                   flags=["-fno-sanitize=null,alignment"] + WRAP["flags"], ldflags=WRAP["ldflags"]),
    "mapped": dict(tus=[dict(src="mapped_main.cpp")] + [dict(src="mapped_cfg.cpp", defs=[f"-DCFG={i}"]) for i in range(28)],
                   flags=["-fno-sanitize=null,alignment"] + WRAP["flags"], ldflags=WRAP["ldflags"]),
    "seqq": dict(tus=[dict(src="seqq.cpp", defs=[f"-DPART={i}"]) for i in range(6)], **WRAP),
    "giant": dict(tus=[dict(src="giant.cpp")], flags=["-fno-sanitize=null,alignment"]),
    "stress": dict(tus=[dict(src="stress.cpp")]),
    "conc": dict(tus=[dict(src="conc_main.cpp"), dict(src="conc_queue.cpp"), dict(src="conc_air.cpp"), dict(src="conc_work.cpp"), dict(src="sched.cpp", nosan=True)]),
}
# events a run must show, unless the code under test works in a way that never gives rise to them (a single short lock is never contended between
# scheduling points, a container may get its memory elsewhere): then the evidence lists them as not observed
SOFT = {"lock_contended", "spurious_wakeups", "cv_blocks", "notify_wakes", "notified_before_sleep", "quiet_with_blocked_consumers", "quiet_with_blocked_loaders",
        "load_after_waiting", "timeouts_fired", "time_jumps", "injected_alloc_failure", "injected_new_failure", "pushes_out_of_memory", "pushes_with_little_memory",
        "insert_out_of_memory", "resize_out_of_memory", "copy_out_of_memory", "constructor_threw", "removals_without_memory", "wrapped_states", "broken_promises_seen",
        "overlapping_operation_pairs", "blocks_skipped", "extreme_jumps", "extreme_pushes"}
RULES = {
    "seq": "Each case is a byte string (seeded PRNG or libFuzzer mutation) decoded into an operation sequence on real objects and the model; "
           "non-trivial = at least 6 executed operations; distinct = different hash over the executed operations and resulting sizes.",
    "conc": "Scheduler builds (fiber*): each case is a byte string giving the plan of every thread, the schedule seed and strategy and the injected noise; distinct = different hash over plan "
            "and the sequence of scheduling decisions taken. Real-thread builds (tsan, threadasan): distinct = different observed order of operation starts, ends and results "
            "(bulk runs: of the delivered elements; work queue: of the executions). Sequential builds (asan): distinct = different operation sequence. Non-trivial = at least 4 planned operations.",
}


def J(engine, flavor, mode, cases, procs=1, fuzz=False, **kw):
    d = dict(engine=engine, flavor=flavor, mode=mode, cases=cases, procs=procs, fuzz=fuzz)
    d.update(kw)
    if engine == "buffers" and fuzz:
        d["params"] = dict(d.get("params", {}), bulk=0)  # very large buffers only in the seeded runs
    return d


def G(mode, cases, procs=1):
    """large sizes; the x modes take seconds and gigabytes a case, and their cases are a few bytes: nothing to minimise"""
    x = mode.startswith("x")
    return J("giant", "fastub" if x else "asan", mode, cases, procs, params=dict(alarm=800 if x else 200), nomin=x, weight=3 if x else 2)


PROPS = {
    "S01": dict(rule="seq", need=["extreme_pushes", "push_accepted", "pop_ok", "reverse", "resize_with_data"], jobs=[
        G("xstack", (1, 4)),
        J("buffers", "asan", "stackraw", (50000, 1200000), procs=3), J("buffers", "asan", "stackown", (45000, 900000), procs=3),
        J("buffers", "asan", "stackraw", (40000, 1000000), fuzz=True), J("buffers", "asan", "stackown", (30000, 800000), fuzz=True)]),
    "S02": dict(rule="seq", need=["extreme_pushes", "push_accepted", "push_refused", "pop_too_small", "push_invalid", "resize_refused"], jobs=[
        G("xstack", (1, 4)),
        J("buffers", "asan", "stackraw", (50000, 1200000), procs=3), J("buffers", "asan", "stackown", (45000, 900000), procs=3, params=dict(slots=1)),
        J("buffers", "asan", "stackraw", (40000, 1000000), fuzz=True), J("buffers", "asan", "stackown", (30000, 800000), fuzz=True, params=dict(slots=1))]),
    "S03": dict(rule="seq", need=["extreme_pushes", "push_accepted", "pop_ok", "wrapped_states", "resize_with_data"], jobs=[
        G("xcirc", (1, 4)),
        J("buffers", "asan", "circraw", (50000, 1200000), procs=3), J("buffers", "asan", "circown", (45000, 900000), procs=3),
        J("buffers", "asan", "circraw", (40000, 1000000), fuzz=True), J("buffers", "asan", "circown", (30000, 800000), fuzz=True)]),
    "S04": dict(rule="seq", need=["extreme_pushes", "push_accepted", "push_refused", "pop_too_small", "push_invalid", "resize_refused", "wrapped_states"], jobs=[
        G("xcirc", (1, 4)),
        J("buffers", "asan", "circraw", (50000, 1200000), procs=3), J("buffers", "asan", "circown", (45000, 900000), procs=3, params=dict(slots=1)),
        J("buffers", "asan", "circraw", (40000, 1000000), fuzz=True), J("buffers", "asan", "circown", (30000, 800000), fuzz=True, params=dict(slots=1))]),
    "S05": dict(rule="seq", need=["copy_construct", "copy_assign", "move_construct", "move_assign", "swap", "moved_from_used", "resize_with_data", "self_copy_assign", "resize_out_of_memory", "copy_out_of_memory"], jobs=[
        J("buffers", "asan", "stackown", (30000, 600000), procs=3, params=dict(slots=3)), J("buffers", "asan", "circown", (30000, 600000), procs=3, params=dict(slots=3)),
        J("buffers", "asan", "stackown", (20000, 500000), fuzz=True, params=dict(slots=3)), J("buffers", "asan", "circown", (20000, 500000), fuzz=True, params=dict(slots=3)),
        J("buffers", "gccdbg", "stackown", (12000, 300000), params=dict(slots=3)), J("buffers", "gccdbg", "circown", (12000, 300000), params=dict(slots=3))]),
    "B01": dict(rule="seq", need=["large_verifications", "push_back", "pop_back", "clear", "assign_range", "move_assign_range", "shrink_to_fit", "construct_sized", "copy_construct", "full_iterations"], jobs=[
        G("vector", (60, 3000)), G("xvector", (1, 8)),
        J("blocks", "asan", "vector", (9000, 250000), procs=3), J("blocks", "asan", "vector", (9000, 250000), procs=3, params=dict(focus=1)),
        J("blocks", "asan", "vector", (6000, 200000), fuzz=True, procs=2),
        J("blocks", "gccdbg", "vector", (4000, 120000))]),
    "B02": dict(rule="seq", need=["large_verifications", "push_back", "push_front", "pop_back", "pop_front", "clear", "assign_range", "move_assign_range", "shrink_to_fit", "construct_sized", "copy_construct", "full_iterations"], jobs=[
        G("deque", (60, 3000)), G("xdeque", (1, 8)),
        J("blocks", "asan", "deque", (8000, 220000), procs=3), J("blocks", "asan", "deque", (8000, 220000), procs=3, params=dict(focus=1)),
        J("blocks", "asan", "deque", (5000, 160000), fuzz=True, procs=2),
        J("blocks", "gccdbg", "deque", (3000, 100000))]),
    "B03": dict(rule="seq", need=["large_verifications", "push_back", "push_front", "pop_back", "pop_front", "move_construct", "move_assign", "swap", "shrink_to_fit"], jobs=[
        G("vector", (40, 2000)), G("deque", (40, 2000)),
        J("blocks", "asan", "vector", (6000, 160000), procs=2, params=dict(focus=1)), J("blocks", "asan", "deque", (6000, 160000), procs=2, params=dict(focus=1)),
        J("blocks", "asan", "deque", (6000, 160000), procs=2, params=dict(focus=4)), J("blocks", "asan", "vector", (6000, 160000), procs=1, params=dict(focus=4)),
        J("mapped", "asan", "single", (4000, 120000), procs=2, params=dict(focus=4)), J("mapped", "asan", "dual", (3000, 100000), procs=2, params=dict(focus=4))]),
    "B04": dict(rule="seq", need=["injected_ctor_throw", "injected_alloc_failure", "exception_propagated", "constructor_threw", "clear", "assign_range", "move_assign_range", "moved_from_used", "removals_without_memory", "injected_new_failure"], jobs=[
        J("blocks", "asan", "vector", (8000, 220000), procs=3, params=dict(focus=2)), J("blocks", "asan", "deque", (8000, 220000), procs=3, params=dict(focus=2)),
        J("blocks", "asan", "vector", (5000, 160000), fuzz=True, params=dict(focus=2)), J("blocks", "asan", "deque", (5000, 160000), fuzz=True, params=dict(focus=2))]),
    "B05": dict(rule="seq", need=["large_jumps", "extreme_jumps", "full_iterations", "iterator_jumps", "algorithms"], jobs=[
        G("vector", (60, 3000)), G("deque", (60, 3000)), G("xvector", (1, 8)), G("xdeque", (1, 8)),
        J("blocks", "asan", "vector", (8000, 220000), procs=3, params=dict(focus=3)), J("blocks", "asan", "deque", (8000, 220000), procs=3, params=dict(focus=3)),
        J("blocks", "asan", "vector", (5000, 160000), fuzz=True, params=dict(focus=3)), J("blocks", "asan", "deque", (5000, 160000), fuzz=True, params=dict(focus=3))]),
    "B06": dict(rule="seq", need=["large_verifications", "copy_construct", "copy_assign", "move_construct", "move_assign", "swap", "moved_from_used", "self_copy_assign"], jobs=[
        G("vector", (40, 2000)), G("deque", (40, 2000)),
        J("blocks", "asan", "vector", (8000, 220000), procs=3, params=dict(focus=4)), J("blocks", "asan", "deque", (8000, 220000), procs=3, params=dict(focus=4)),
        J("blocks", "asan", "vector", (5000, 160000), fuzz=True, params=dict(focus=4)), J("blocks", "asan", "deque", (5000, 160000), fuzz=True, params=dict(focus=4))]),
    "M01": dict(rule="seq", need=["large_map_verifications", "insert_ok", "insert_refused", "insert_no_term", "assign_existing", "assign_new", "alias_added", "alias_refused", "lookups_hit", "lookups_miss", "apply_modify_transform", "bulk", "exception_propagated", "insert_out_of_memory", "injected_new_failure"], jobs=[
        G("single", (24, 1000)),
        J("mapped", "asan", "single", (6000, 200000), procs=3), J("mapped", "asan", "single", (6000, 200000), procs=3, params=dict(focus=1)),
        J("mapped", "asan", "single", (4000, 150000), fuzz=True, procs=2, params=dict(focus=1)),
        J("mapped", "gccdbg", "single", (3000, 100000))]),
    "M02": dict(rule="seq", need=["large_map_verifications", "insert_ok", "insert_refused", "insert_no_term", "insert_partly_taken", "assign_existing", "assign_new", "alias_added", "alias_refused", "lookups_hit", "lookups_miss", "apply_modify_transform", "bulk", "exception_propagated", "insert_out_of_memory", "injected_new_failure"], jobs=[
        G("dual", (24, 1000)),
        J("mapped", "asan", "dual", (5000, 160000), procs=3), J("mapped", "asan", "dual", (5000, 160000), procs=3, params=dict(focus=1)),
        J("mapped", "asan", "dual", (3000, 120000), fuzz=True, procs=2, params=dict(focus=1)),
        J("mapped", "gccdbg", "dual", (2000, 70000))]),
    "M03": dict(rule="seq", need=["large_map_removals", "removed", "removed_with_aliases", "remove_inner_stable", "remove_nothing", "clear", "alias_added", "removals_without_memory"], jobs=[
        G("single", (24, 1000)), G("dual", (24, 1000)),
        J("mapped", "asan", "single", (6000, 200000), procs=3, params=dict(focus=2)), J("mapped", "asan", "dual", (5000, 160000), procs=3, params=dict(focus=2)),
        J("mapped", "asan", "single", (3000, 120000), fuzz=True, params=dict(focus=2)), J("mapped", "asan", "dual", (3000, 120000), fuzz=True, params=dict(focus=2))]),
    "M04": dict(rule="seq", need=["copy_construct", "copy_assign", "move_construct", "move_assign", "swap", "moved_from_used", "moved_from_cleared", "moved_from_assigned", "self_copy_assign", "destroyed_filled"], jobs=[
        J("mapped", "asan", "single", (5000, 160000), procs=3, params=dict(focus=3)), J("mapped", "asan", "dual", (4000, 130000), procs=3, params=dict(focus=3)),
        J("mapped", "asan", "single", (3000, 100000), fuzz=True, params=dict(focus=3)), J("mapped", "asan", "dual", (3000, 100000), fuzz=True, params=dict(focus=3)),
        J("mapped", "gccdbg", "single", (2000, 70000), params=dict(focus=3)), J("mapped", "gccdbg", "dual", (1500, 50000), params=dict(focus=3))]),
    "M05": dict(rule="seq", need=["mapfind_present", "mapfind_missing", "map_writes"], jobs=[
        J("mapped", "asan", "mapfind", (20000, 600000), procs=2), J("mapped", "asan", "mapfind", (8000, 200000), fuzz=True)]),
}


def F(mode, focus, cases, procs=1, elem=0, flavor="fiberasan", **kw):
    """scheduler-controlled run"""
    return J("conc", flavor, mode, cases, procs=procs, maxlen=320, params=dict(focus=focus, elem=elem, **kw))


def T(mode, focus, cases, procs=1, elem=0, flavor="threadasan"):
    """real threads; few processes at a time so that the threads really run side by side"""
    return J("stress", flavor, mode, cases, procs=procs, maxlen=320, params=dict(focus=focus, elem=elem))


def Q(mode, cases, procs=1, focus=0, fuzz=False):
    """one thread, exact model"""
    return J("seqq", "asan", mode, cases, procs=procs, fuzz=fuzz, params=dict(focus=focus))


NF = 70000
LF = 2500000
PROPS.update({
    "Q01": dict(rule="conc", need=["push", "pushVector", "try_pop", "lock_contended", "histories_checked", "bulk_runs"], jobs=[
        F("simple", 0, (NF, LF), 4), F("simple", 1, (NF, LF)), F("simple", 0, (NF, LF), 1, 1), F("simple", 4, (NF, LF)), F("simple", 0, (NF // 2, LF // 2), 1, 2),
        T("simple", 0, (4000, 150000)), T("simple", 1, (1200, 40000)), T("simple", 1, (1200, 40000), 1, 1)]),
    "Q02": dict(rule="conc", need=["empty", "size", "peek", "clear", "move-assign", "pushVector", "histories_checked", "move_construct", "move_assign", "empty_vectors_pushed", "throwing_pushes", "reserves", "pushes_out_of_memory", "pushes_with_little_memory"], jobs=[
        F("simple", 3, (NF, LF), 4), F("simple", 4, (NF, LF), 2), F("simple", 2, (NF, LF), 1, 1),
        Q("simple", (20000, 700000), 2), Q("simple", (10000, 400000), 1, 1), Q("simple", (10000, 400000), fuzz=True), T("simple", 0, (4000, 150000)),
        J("seqq", "gccdbg", "simple", (6000, 200000))]),
    "Q03": dict(rule="conc", need=["push", "pop", "pop(timeout)", "try_pop", "callback_pops_called", "lock_contended", "spurious_wakeups", "histories_checked", "bulk_runs"], jobs=[
        F("blocking", 0, (NF, LF), 3), F("blocking", 1, (NF, LF), 1), F("blocking", 2, (NF, LF), 1), F("blocking", 0, (NF, LF), 1, 1), F("blocking", 4, (NF, LF), 1), F("blocking", 0, (NF // 2, LF // 2), 1, 2),
        T("blocking", 0, (4000, 150000)), T("blocking", 1, (1200, 40000)), T("blocking", 1, (1200, 40000), 1, 1)]),
    "Q04": dict(rule="conc", need=["quiet_with_blocked_consumers", "cv_blocks", "notify_wakes", "notified_before_sleep", "feeds", "move-assign", "throwing_pushes", "bulk_runs"], jobs=[
        F("blocking", 1, (NF, LF), 4), F("blocking", 4, (NF, LF), 2), F("blocking", 2, (NF, LF)), F("blocking", 3, (NF, LF)), F("blocking", 1, (NF, LF), 1, 1), F("blocking", 1, (NF // 2, LF // 2), 1, 2),
        T("blocking", 1, (1500, 60000))]),
    "Q05": dict(rule="conc", need=["timed_pop_delivered", "timed_pop_expired", "callback_pops_called", "callback_pops_direct", "timeouts_fired", "time_jumps", "saw-empty"], jobs=[
        F("blocking", 2, (NF, LF), 3), F("priority", 2, (NF, LF), 3), F("blocking", 0, (NF, LF)), F("priority", 0, (NF, LF)), F("blocking", 2, (NF, LF), 1, 1), F("priority", 4, (NF, LF)),
        Q("blocking", (10000, 300000)), Q("priority", (10000, 300000)), T("blocking", 0, (3000, 100000)), T("priority", 0, (3000, 100000))]),
    "Q06": dict(rule="conc", need=["push", "pushPriority", "pop", "pop(timeout)", "try_pop", "callback_pops_called", "lock_contended", "spurious_wakeups", "histories_checked", "bulk_runs"], jobs=[
        F("priority", 0, (NF, LF), 3), F("priority", 1, (NF, LF), 1), F("priority", 2, (NF, LF), 1), F("priority", 0, (NF, LF), 1, 1), F("priority", 4, (NF, LF), 1), F("priority", 0, (NF // 2, LF // 2), 1, 2), Q("priority", (10000, 300000)),
        T("priority", 0, (4000, 150000)), T("priority", 1, (1200, 40000)), T("priority", 1, (1200, 40000), 1, 1)]),
    "Q07": dict(rule="conc", need=["quiet_with_blocked_consumers", "cv_blocks", "notify_wakes", "notified_before_sleep", "feeds", "move-assign", "throwing_pushes", "pushPriority", "bulk_runs"], jobs=[
        F("priority", 1, (NF, LF), 4), F("priority", 4, (NF, LF), 2), F("priority", 2, (NF, LF)), F("priority", 3, (NF, LF)), F("priority", 1, (NF, LF), 1, 1), F("priority", 1, (NF // 2, LF // 2), 1, 2),
        T("priority", 1, (1500, 60000))]),
    "Q08": dict(rule="conc", need=["empty", "size", "peek", "clear", "move-assign", "histories_checked", "move_construct", "move_assign", "throwing_pushes", "reserves", "pushes_out_of_memory"], jobs=[
        F("blocking", 3, (NF, LF), 2), F("priority", 3, (NF, LF), 2), F("blocking", 4, (NF, LF)), F("priority", 4, (NF, LF)),
        Q("blocking", (20000, 700000)), Q("priority", (20000, 700000)), Q("blocking", (8000, 300000), fuzz=True), Q("priority", (8000, 300000), fuzz=True),
        T("blocking", 0, (3000, 100000)), T("priority", 0, (3000, 100000))]),
    "Q09": dict(rule="conc", need=["destroyed_filled", "clears", "move_construct", "move_assign", "throwing_pushes", "throwing_loads", "vectors_pushed", "bulk_runs"], jobs=[
        Q("simple", (14000, 500000)), Q("blocking", (14000, 500000)), Q("priority", (14000, 500000)), Q("airlock", (20000, 600000)),
        Q("simple", (10000, 400000), focus=1), Q("blocking", (10000, 400000), focus=1), Q("priority", (10000, 400000), focus=1),
        Q("simple", (6000, 200000), fuzz=True), Q("blocking", (6000, 200000), fuzz=True), Q("priority", (6000, 200000), fuzz=True),
        F("simple", 3, (NF // 2, LF // 2)), F("blocking", 4, (NF // 2, LF // 2)), F("priority", 4, (NF // 2, LF // 2), 1, 1), F("airlock", 0, (NF // 2, LF // 2)),
        T("simple", 1, (1000, 30000), 1, 1), T("blocking", 1, (1000, 30000)), T("priority", 1, (1000, 30000))]),
    "A01": dict(rule="conc", need=["load", "try_load_ok", "try_load_refused", "unload_ok", "unload_refused", "isLoaded", "load_after_waiting", "spurious_wakeups", "histories_checked", "bulk_runs"], jobs=[
        F("airlock", 0, (NF, LF), 3), F("airlock", 1, (NF, LF)), F("airlock", 0, (NF, LF), 1, 1), F("airlock", 0, (NF // 2, LF // 2), 1, 2), Q("airlock", (20000, 600000)), Q("airlock", (10000, 300000), fuzz=True),
        T("airlock", 0, (4000, 150000)), T("airlock", 1, (1500, 60000)), T("airlock", 1, (1500, 60000), 1, 1)]),
    "A02": dict(rule="conc", need=["load_after_waiting", "quiet_with_blocked_loaders", "cv_blocks", "notify_wakes", "notified_before_sleep", "spurious_wakeups", "bulk_runs"], jobs=[
        F("airlock", 1, (NF, LF), 4), F("airlock", 0, (NF, LF), 2), F("airlock", 1, (NF, LF), 1, 1), F("airlock", 1, (NF // 2, LF // 2), 1, 2), T("airlock", 1, (2000, 80000), 1), T("airlock", 0, (3000, 100000), 1)]),
    "R01": dict(rule="conc", need=["push", "pushPriority", "pushVector", "try_pop", "pop", "pop(timeout)", "callback_pops_called", "empty", "size", "peek", "clear", "move-assign", "load", "try_load_ok", "unload_ok", "isLoaded", "bulk_runs", "overlapping_operation_pairs"], jobs=
        [F(m, f, (14000, 500000), 1, f == 2, "fibertsan") for m in ("simple", "blocking", "priority") for f in (0, 1, 2, 3, 4)]
        + [F("airlock", f, (14000, 500000), 1, f, "fibertsan") for f in (0, 1)]
        + [T(m, f, ((3500, 120000), (900, 30000))[f], 1, e, "tsan") for m in ("simple", "blocking", "priority", "airlock") for f, e in ((0, 0), (1, 1), (1, 2))]),
    "R02": dict(rule="conc", need=["poll_saw_finished", "results_fetched", "results_awaited", "completions_awaited", "completions_polled", "observations", "closed_explicitly", "queues_destroyed", "blocks_dropped"], jobs=
        [F("work", f, (16000, 500000), 1 + (f == 0), 0, "fibertsan") for f in (0, 1, 2, 3)] + [T("work", f, (3500, 120000), 2, 0, "tsan") for f in (0, 1)]),
    "W01": dict(rule="conc", need=["picks", "blocks_executed", "blocks_skipped", "batches", "quiet_before_close", "notify_wakes", "spurious_wakeups", "poll_saw_finished", "fetched_by_clients", "finished_while_waiting"], jobs=[
        G("picks", (60, 3000)),
        F("work", 0, (80000, 2500000), 4), F("work", 3, (80000, 2500000), 1), F("work", 0, (80000, 2500000), 1, types=0), F("work", 2, (60000, 1500000), 1), F("work", 1, (60000, 1500000), 1), Q("workblock", (1500, 60000)), T("work", 0, (4000, 150000), 2)]),
    "W02": dict(rule="conc", need=["low_picks_among_medium", "picked_high", "picked_low_both", "picked_medium_both", "picked_low_only", "picked_medium_only", "blocks_executed"], jobs=[
        G("picks", (100, 5000)), G("xpicks", (0, 1)),
        F("work", 1, (90000, 2500000), 6), F("work", 1, (90000, 2500000), 1, types=0), F("work", 0, (60000, 1500000), 1)]),
    "W03": dict(rule="conc", need=["blocks_dropped", "blocks_executed", "chain_executions", "closed_explicitly", "queues_destroyed", "threads_joined"], jobs=[
        F("work", 2, (70000, 1800000), 5), F("work", 2, (60000, 1200000), 1, types=0), F("work", 0, (60000, 1200000), 1), T("work", 1, (4000, 150000), 2)]),
    "W04": dict(rule="conc", need=["executed", "executed_again", "executed_by_queue", "reset_after_run", "reset_before_run", "updates", "values_delivered", "exceptions_delivered", "broken_promises_seen", "move_construct", "move_assign", "default_constructed", "results_awaited"], jobs=[
        Q("workblock", (8000, 300000), 4), Q("workblock", (4000, 150000), 2, fuzz=True), F("work", 0, (30000, 1000000)), T("work", 0, (4000, 150000), 2)]),
    "W05": dict(rule="conc", need=["quiet_before_close", "cv_blocks", "notify_wakes", "notified_before_sleep", "blocks_executed", "batches"], jobs=[
        F("work", 3, (90000, 2500000), 6), F("work", 3, (80000, 1500000), 1, types=0), F("work", 0, (60000, 1200000), 1)]),
})
