# Which simulator variants decide which property, and their time caps in seconds (quick, thorough).
VARIANTS = {
    "plain": {"cmake": ["-DCMAKE_CXX_FLAGS=-O2 -g1 -w"]},
    "asan": {"cmake": ["-DCMAKE_CXX_FLAGS=-O1 -g1 -w -fsanitize=address -fno-omit-frame-pointer"], "run_env": {"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:detect_stack_use_after_return=0"}},
    "race": {"cmake": ["-DCMAKE_CXX_FLAGS=-O1 -g1 -w", "-DSIM_RACE=ON"]}, # own scheduler and happens-before detector, see sim/race_rt.hpp
    "tailcall": {"cmake": ["-DCMAKE_CXX_COMPILER=clang++", "-DCMAKE_C_COMPILER=clang", "-DLA_TAILCALL_DISPATCH=ON", "-DCMAKE_CXX_FLAGS=-O2 -g1 -w -Wno-c++11-narrowing"]}, # the build option with dispatch by tail calls (clang only)
}
VARIANTS["masked"] = {"cmake": ["-DLA_MASKED_MEMORY_BITS=17", "-DCMAKE_CXX_FLAGS=-O2 -g1 -w"]} # the build option that masks every guest address into a power-of-two arena
ASSUMPTIONS = ["The host CPU and compiler execute the C++ code as written; the interpreter is the threaded dispatch build (the default; where the variants say so also the tail-call dispatch build), without the just-in-time translator.",
               "Seeded search samples schedules and fault sequences: it shows no violation on those it ran, not absence for all."]
PROPS = {
    "P01": {"variants": {"plain": (80, 1800), "asan": (50, 1200), "masked": (20, 400)}, "simtime": "guest instructions"},
    "P02": {"variants": {"plain": (70, 1500), "tailcall": (25, 600)}},
    "P03": {"variants": {"plain": (70, 1500), "tailcall": (25, 600)}},
    "P04": {"variants": {"plain": (70, 1500), "tailcall": (30, 600)}, "assumptions": ["Which of two NaN operands the host's floating-point instructions hand on is not compared."]},
    "P05": {"variants": {"race": (110, 1800)}, "simtime": "scheduling points", "assumptions": ["Interleavings are sequentially consistent; missing ordering between accesses is found by happens-before, not by simulating weak memory.", "SharedExecuteSegments::clear() and the host-global setters (unknown system call handler, rdtime) are called by no thread while others run."]},
    "P07": {"variants": {"plain": (70, 1500), "tailcall": (20, 400)}, "simtime": "guest instructions"},
    "P08": {"variants": {"plain": (70, 1800)}, "simtime": "heap operations"},
    "P06": {"variants": {"plain": (70, 1800)}, "simtime": "guest instructions"},
    "P09": {"variants": {"plain": (80, 1800), "asan": (45, 900)}, "simtime": "builds of machines"},
    "P10": {"variants": {"plain": (75, 1500), "asan": (40, 600)}, "simtime": "machine operations"},
    "P11": {"variants": {"plain": (80, 1800)}, "simtime": "mapping operations"},
    "P12": {"variants": {"plain": (60, 1800)}, "simtime": "guest writes"},
    "P13": {"variants": {"plain": (45, 1800)}, "simtime": "host clock readings"},
    "P14": {"variants": {"plain": (40, 1800)}, "simtime": "guest instructions"},
    "P15": {"variants": {"plain": (40, 1500), "asan": (45, 600)}, "simtime": "object operations"},
    "P18": {"variants": {"plain": (60, 1500), "asan": (40, 600)}, "simtime": "guest calls"},
    "P19": {"variants": {"plain": (60, 1500), "asan": (40, 600)}, "simtime": "machine operations"},
    "P20": {"variants": {"plain": (60, 1500), "tailcall": (20, 400)}, "simtime": "system calls"},
    "P21": {"variants": {"plain": (60, 1500)}, "simtime": "runs of the emulator"},
    "P16": {"variants": {"plain": (70, 1500), "tailcall": (25, 600)}},
}
