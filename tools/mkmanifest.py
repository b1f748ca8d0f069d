#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist. Levels and notes are kept here."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("differential monitor: outputs against an independent reference model", "Every output coefficient of random runs is compared with an independent numpy evaluation of the documented integrals; tolerance from a rounding analysis (observed error below 1/50 of it). Trusts numpy and the reading of the documentation."),
 "C02": ("oracle by construction: pointwise monitor on equilibria with a known transformation", "Independent of C01's model: the Boozer angles are chosen, the inputs derived. Limited to equilibria resolved by the chosen mode numbers."),
 "C03": ("trace invariant monitor over random histories", "Shape and mode-table predicates evaluated after every run of histories with changing settings."),
 "C04": ("differential monitor: lists of surfaces against single runs and poisoned inputs", "Columns compared with runs of single surfaces, bit for bit with the same position and to rounding otherwise."),
 "C05": ("ThreadSanitizer with an instrumented OpenMP runtime, randomised schedules, bitwise differential", "TSan sees all synchronisation because the OpenMP runtime used is compiled with it. Race freedom is claimed for executed code paths and schedules only."),
 "C06": ("history monitor: several objects against solo runs; ThreadSanitizer for concurrent objects", "Compares all attributes of all live objects after every step, and TSan watches concurrent use."),
 "C07": ("history monitor: random call histories against a fresh object", "Bitwise comparison of attributes and files after random histories including failing calls."),
 "C08": ("differential monitor: init_from_vmec against an independent model", "All attributes after init_from_vmec against a numpy model from the documentation."),
 "C09": ("differential monitor: files generated by an independent writer", "wout files of all formats, types and orders written by libnetcdf's C API and read by the code."),
 "C10": ("format monitor: an independent reader decodes every file written", "Every variable, dimension, type and value of written files is decoded with scipy and compared with the object."),
 "C11": ("differential and round-trip monitor on files by an independent writer", "Foreign boozmn files in every format, and write-read-write histories."),
 "C12": ("AddressSanitizer, UBSan, LeakSanitizer, assertions on random valid call histories", "Held on the executions driven; red-zone tools miss accesses that stay inside another live block."),
 "C13": ("AddressSanitizer, UBSan on corrupted inputs and files, with recovery oracle", "Corruptions from a catalogue and combinations of them; every one must raise an exception without any sanitizer report and leave the object usable."),
 "C14": ("valgrind memcheck on all outputs, differential under heap poisoning", "Every attribute and every file byte is checked for definedness by memcheck; runs under different heap fills are compared."),
 "C15": ("fault injection into every NetCDF call, resource limits", "Each single NetCDF call of each file operation is made to fail in turn; descriptors and results are monitored."),
 "C16": ("history monitor of Python attributes, arrays and buffers", "Random histories with a shadow copy of every attribute and every array taken out."),
 "C17": ("differential monitor: processes of both command-line programs against the API", "stdout, exit status and bytes of the files of the real programs."),
 "C18": ("trace checker on the printed report", "stdout of runs with many threads and random schedules is parsed record by record and compared with an independent evaluation."),
 "C19": ("differential monitor over verbosity with captured file descriptors", "All attributes, files and errors per verbosity; descriptors 1 and 2 captured."),
 "C20": ("metamorphic monitor: symmetric against asymmetric mode", "Paired runs compared to rounding."),
 "C21": ("metamorphic monitor: exact symmetries of the transformation", "Paired runs under each symmetry compared to rounding."),
 "C22": ("recording stand-ins for the plotting libraries against independent evaluation", "All values given to the plotting library are compared; plotly itself is not installed, a stand-in records the calls."),
 "C23": ("before/after monitor of inputs and files", "Snapshots of all inputs and hashes of all input files around every call."),
}
LEVEL = {"C15": "fault_enumeration"}
checks = []
for c in sorted(T):
    if not os.path.exists(os.path.join(V, "checks", c.lower() + ".py")): continue
    cmd = "/opt/boozenv/bin/python check.py " + c
    checks.append(dict(property=c, quick_cmd=cmd, thorough_cmd="VERIF_TIER=thorough " + cmd, evidence_file="evidence/%s.json" % c,
                       technique=T[c][0], level=LEVEL.get(c, "exploration"), level_note=T[c][1]))
na = [dict(property=c, reason="check under construction") for c in sorted(T) if not os.path.exists(os.path.join(V, "checks", c.lower() + ".py"))]
m = dict(version=1, setup_cmd="/opt/boozenv/bin/python -c \"import sys; sys.path.insert(0,'lib'); import build; build.python_package()\"",
         checks=checks, not_applicable=na,
         notes="No hooks in /repo: all monitoring is done through the public interfaces, by interposing on NetCDF and OpenMP calls at link time, and by sanitizers.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not yet")
