#!/usr/bin/env python3
"""Writes MANIFEST.json: the checks that exist, and what is not claimed."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
 "P01": ("TLA+ definition of the integrals over GF(p) (Eri.tla); TLC validates recorded calls of the generated library interpreted over GF(p)",
         "Every recorded component equals the integral defined in Eri.tla exactly in GF(46327), for all classes up to f of the general library and smaller variants, sampled g; thorough goes to all of g and samples of h. Trusts that the library's arithmetic is an algebraic identity plus exp and Boys functions, interpreted in the scalar lane; TLC recomputes the oracle, witnesses (inverses, root, weights) are checked."),
 "P02": ("TLA+ definition of the gradients over GF(p) (Eri.tla); TLC validates recorded derivative calls interpreted over GF(p)",
         "All 12 derivatives of every component, exact in GF(46327), all classes up to d and sampled f (thorough g). Same trust as P01."),
 "P03": ("TLA+ model of the batch loop (BatchAlgo) checked exhaustively by TLC; its configurations and others replayed into the libraries of each instruction set and the recorded calls validated against Batch.tla",
         "Exhaustive on the model within small constants; the code is bound by traces in which each primitive quartet's multiplicity in each shell quartet is read off from values linear in the coefficients (modulo 4), for every instruction set the CPU runs."),
 "P04": ("TLA+ state machine of shell-pair objects (Pairs.tla, PairFields.tla); histories generated by TLC simulation are replayed into the library and the recorded object contents validated by TLC; field values exact over GF(p)",
         "Histories of fill/create/add/free/reuse on several objects with all screening modes; contents decoded to primitive identities; field definitions (P, PA, PB, prefac, alpha, ...) exact in GF(46327)."),
 "P05": ("TLA+ state machine of shell-pair objects (Pairs.tla): concatenation is an action; TLC-generated histories replayed into the library, recorded contents and integrals validated",
         "Includes growing, reused and self-owned destinations, all screening modes, and integrals computed with the concatenation on either side."),
 "P06": ("TLA+ specification of screening (Batch.tla ScreenCallOK/BoundOK, BatchAlgo with screening transitions model checked); recorded screened calls validated by TLC",
         "Model: all screening values and tolerances within small constants. Code: multiplicity of every primitive quartet decoded from screened calls of every instruction set; Schwarz values and the error bound compared with integrals."),
 "P07": ("TLA+ specification of a call's frame (Buffers.tla); TLC-generated histories replayed with guard pages, read-only inputs and poisoned buffers, events validated by TLC",
         "Every class of the built libraries, ERI and gradients; workspace sizes compared for all derivative orders and angular momenta."),
 "P09": ("TLA+ specification of the generated tree (Tree.tla: file lists, declarations, closure of references, limits) validated by TLC on recorded trees and builds; TLC explores all interleavings of the recorded header writes of generator processes (Header.tla)",
         "Option sets of thresholds and limits, every advertised limit of each tree by symbol closure and some by real builds; failing generator programs of every kind; trees written over older ones."),
 "P10": ("TLA+ state machine of initialisation and dispatch (Dispatch.tla); histories enumerated by TLC replayed into the real dispatch linked with recording stubs, events validated by TLC",
         "Exhaustive over classes up to k, orders, limits and entry points; histories of init/finalize up to length 7 (thorough 9)."),
 "P15": ("TLA+ state machine of shell objects (Shells.tla); histories enumerated and simulated by TLC replayed into the library (also with the address sanitizer), dumps after every step validated by TLC; dummy shell exact over GF(p) against Eri.tla",
         "All histories of three steps on two shells, simulated longer ones; normalisation within 40 ulp times condition of the definition."),
 "P11": ("TLA+ specification of accuracy (Numeric.tla) and of the choice of method per lane (BoysAlgo, model checked over all lane combinations); input patterns enumerated by TLC; recorded errors against a 113-bit reference, itself bound to Eri.tla over GF(p), validated by TLC",
         "Boys functions: every order up to 29, every point of the grid and between, all mixtures of lane kinds, every instruction set, two compilers, bounds of 20+4n units of 2^-53. Integrals and gradients: sampled patterns of exponents and distances up to d shells (thorough f) within 40+4L units of the largest term. Accuracy is sampled, not proved."),
 "P13": ("TLA+ specification of the vector operations lane by lane (Lanes.tla; accumulation orders model checked in LanesAlgo); recorded operations of every instruction set and compiler, and results of whole libraries of each instruction set, validated by TLC (LanesTrace)",
         "Lane operations on exact integers including emulated ARM intrinsics; whole libraries compared to the scalar build within 1e-10 of the largest value."),
 "P14": ("TLA+ definition of the one-electron integrals over GF(p) (Oei.tla); TLC validates recorded calls; magnitudes against a 113-bit reference (itself validated against Oei.tla) validated by NumericTrace",
         "Exact in GF(46327) for every pair of shells up to l = 7 and samples beyond, zero to five charges, contracted, coinciding and identical shells; accuracy within 40+4L units of 2^-53 of the largest term for all kinds of exponents and distances on every instruction set."),
 "P16": ("TLA+ model of concurrent calls over private and shared state (ReentrantAlgo, model checked; shared scratch must fail); recorded calls alone, in sequence with the library's memory write-protected, and from threads (also with the thread sanitizer) validated by TLC (ReentrantTrace)",
         "All classes up to d (thorough f), gradients, pairs, one-electron integrals; writes to static memory are caught by page protection, independent of schedules."),
 "P17": ("TLA+ state machine of shell and pair objects with the two interfaces as instances (Fortran.tla); TLC-generated histories replayed through the C and the Fortran interface, results and all objects as seen from C and from Fortran validated by TLC (FortranTrace)",
         "Every procedure, array sections, local objects, modules built with default integers of four and eight bytes, with and without derivatives; layouts member by member. gfortran only."),
 "P12": ("TLA+ definition of the recurrences and index tables over GF(p) (Kernels.tla); TLC validates recorded kernel calls",
         "Exact in GF(46327) for every centre and order of the tables; tables enumerated completely."),
 "P08": ("TLA+ specification that the integrals are one function of the input (Options.tla), TLC validates calls of libraries generated with many option sets over GF(p), and a sample against Eri.tla",
         "Sets of thresholds, permutation thresholds, limits and orders; equality exact in GF(46327)."),
}
LEVEL = {}
NA = []

checks = []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)["id"]
    if not os.path.exists(os.path.join(ROOT, "checks", p.lower() + ".py")):
        if p not in [n["property"] for n in NA]:
            NA.append({"property": p, "reason": "check not finished yet"})
        continue
    t, note = NOTES[p]
    checks.append({"property": p, "quick_cmd": "./run.sh %s quick" % p, "thorough_cmd": "./run.sh %s thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": t,
                   "level": LEVEL.get(p, "model_checking"), "level_note": note})
m = {"version": 1, "setup_cmd": "./run.sh --setup", "checks": checks, "not_applicable": NA,
     "notes": "TLA+ checked with TLC (see DESIGN.md). No hooks are compiled into /repo: all commits there are fixes."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
