#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ACC = "online oracle: every returned value of the real functions is compared with an independent 113-bit (or wider) evaluation of the defining series"
META = "online relational monitor over tuples of returned values"
T = {
 "C01": (ACC, ""), "C02": (ACC, ""), "C03": (ACC, ""), "C04": (ACC, ""), "C05": (ACC, ""), "C06": (ACC, ""), "C07": (ACC, ""), "C08": (ACC, ""),
 "C09": (META + " (parity bit for bit, period, reflection)", ""),
 "C10": (META + " (both sides of the cut, conjugate pairs, signs of zero)", ""),
 "C11": ("online oracle at special, non-finite and extreme arguments", "Complex arguments with an infinite part are only judged where the limit exists; the finite partial sums of Li(n,z) for n << 0 where the true value overflows are not judged."),
 "C12": (META + " (three languages, same argument)", ""),
 "C13": (META + " (different entry points, same value)", ""),
 "C14": ("AddressSanitizer, UndefinedBehaviorSanitizer and valgrind memcheck on builds of the libraries under hostile arguments and orders", "Sanitizers see the errors the executed paths commit; uninitialised values are seen where a result depends on them (memcheck definedness of every result)."),
 "C15": ("state monitors around every call: argument memory, FP control and status registers, errno, writable library memory, heap, output; bit comparison of repeated calls in different histories", ""),
 "C16": ("work counter: every basic block of the libraries executed by a call is counted (trace-pc instrumentation), with a watchdog", "Bounds are fixed numbers of basic blocks, about ten times the largest count observed on the unchanged tree."),
 "C17": ("ThreadSanitizer on all three libraries and bit comparison of concurrent with sequential results, many fresh processes", "ThreadSanitizer sees races between the accesses of the executed schedules, in either order."),
 "C18": ("online oracle: values for every order around the tables and boundary and random 64-bit orders against 60-digit references", ""),
 "C19": (META + " (functional equations)", ""),
 "C20": ("online oracle on the libraries built in many configurations", "Twelve configurations in the quick tier, about sixty in the thorough tier."),
 "C21": ("execution of generated consumer programs against the installed package, results compared with tabulated values", "The compilers present: gcc, g++, gfortran 13 and clang 18."),
 "C22": (META + " (neighbouring arguments, monotone steps)", ""),
 "C23": (ACC + ", with tolerances relative to each component for tiny arguments", ""),
 "C25": ("status flag monitor: the floating-point exception flags are cleared before and read after every call", "Three gcc builds (RelWithDebInfo, Release, Debug)."),
 "C26": (ACC + ", each call made in one of three other rounding modes or with subnormals flushed to zero, with a watchdog", "Tolerances are eight times those of the default mode."),
 "C27": ("execution of programs built from single extracted source files, results compared with tabulated values", "The compilers present: gcc, g++, gfortran 13 and clang 18."),
 "C28": ("single-stepping monitor: the processor's trap flag delivers a signal after every instruction of a call, the handler calls the library and compares both results; first calls of a process and abandoned calls in child processes", "Interruption points between instructions are enumerated for the sampled calls; needs x86-64."),
 "C29": ("child processes make the calls from .preinit_array, constructors, destructors, exit handlers, ending threads, forked children, dlopen'ed copies, under seccomp and failing allocators; a monitor compares the bits of all results with those from main() and watches how the processes end", "The moments and surroundings are those listed in src/life.hpp; needs Linux."),
 "C30": ("the libraries compiled for quadruple and for double long double, every result compared with a 320-bit reference, some builds under AddressSanitizer and UndefinedBehaviorSanitizer", "The types are those of the compilers' options -mlong-double-128 and -mlong-double-64 on x86-64 with libquadmath; no machine that has them natively is present. The reference is in src/p_wide.cpp."),
 "C24": (ACC + " (complex logarithm helpers)", "The helpers are not part of the interface; where a language's helper no longer exists under its name it is not judged."),
}
GEN = ("Runtime monitoring: shows absence of violations on the executions observed (seeded random inputs from strata that follow the structure of the functions and of the sources, millions per run), not on all inputs. "
       "Trusts the compiler, libquadmath and the reference implementation in src/ref.cpp, which was checked against mpmath.")
props = [json.loads(l) for l in open(os.path.join(os.path.dirname(__file__), "../properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 run.py setup",
     "checks": [{"property": p["id"], "quick_cmd": "python3 run.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"], "technique": "runtime monitoring: " + T[p["id"]][0], "level": "exploration",
                 "level_note": (GEN + " " + T[p["id"]][1]).strip()} for p in props],
     "not_applicable": [],
     "notes": "No hooks in /repo: the monitors observe the unmodified sources through their public functions, compiler instrumentation and symbol-level access."}
json.dump(m, open(os.path.join(os.path.dirname(__file__), "../MANIFEST.json"), "w"), indent=1)
