#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (the source of technique and level notes)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "runtime monitoring: "
CHECKS = {
    "P01": ("online oracle (integer Fock-space reference) over random systems and all operator pairs",
            "Complete bases up to 2^8 kets, all bit positions 0..63 over random backgrounds."),
    "P02": ("online oracle (integer Fock-space reference) on random operator strings and bases",
            "Strings up to 8 operators; bases up to some thousand kets, positions 0..63, left bases with missing images."),
    "P03": ("differential monitor: labelled versus unlabelled evaluation versus integer reference",
            "All 64x64 position pairs enumerated; random sector, partial and rectangular bases."),
    "P04": ("homomorphism monitor on random expression trees",
            "Every node of the tree is compared with the product of the reference matrices of its children."),
    "P05": ("differential monitor: normal order and sign against matrices and inversion counts",
            "All strings up to length 4 over 2 states and 3 over 3 states; random strings up to 9 operators."),
    "P06": ("online oracle: matrices of generated terms against the documented formulas",
            "Random sites, spins, orbits, keyword combinations and coefficient types."),
    "P07": ("brute-force oracle for occupation bases; hostile specifiers",
            "Unions of up to about 14 states by brute force, large ones by counting and membership."),
    "P08": ("online oracle (bit-level spin matrices) and commutator monitors", "Up to 7 spins completely, up to 14 sampled."),
    "P09": ("online oracle (ordered bit-level products) over random interactions and expression trees", "Up to 6 operators on 6 spins."),
    "P10": ("differential monitor: fermion representation against spin matrices", "Up to 4 sites; single occupancy space and number operators."),
    "P11": ("identity/order/hash consistency monitor against a fixed-point model", "Pools with hostile close coordinates, 0 to 8 digits."),
    "P12": ("identity and geometry monitor against a fixed-point model and math.hypot/atan2", "Pools of bonds in 1-3 dimensions."),
    "P13": ("bijection monitor with planted duplicates and foreign keys", "Tables of 1..60 objects of all kinds."),
    "P14": ("numerical oracle: reorthogonalised Krylov reference, moments, Ritz bounds",
            "Well-conditioned Krylov spaces of up to 14 dimensions exactly, larger ones by bounds."),
    "P15": ("numerical oracle: sum over eigenstates", "Dimensions up to about 100; random, fermion and spin models."),
    "P16": ("numerical oracle: real Lanczos data against spectral sums and reorthogonalised resolvents", "Krylov dimension up to 14."),
    "P17": ("numerical oracle: spectral sums, causality, sum rule, free resolvent", "Dimensions up to about 100."),
    "P18": ("numerical oracle: dense quadratic forms from bit-level spins", "1..9 spins."),
    "P19": ("lattice monitor: folding against brute-force reduction", "Translations of up to 30 cells, random histories of queries."),
    "P20": ("lattice monitor: distances against brute force of the infinite lattice, in random histories", "1-3 dimensions, skewed cells."),
    "P21": ("lattice monitor: classes of bonds against brute force of the infinite lattice", "1-3 dimensions, all options."),
    "P22": ("numerical oracle: reciprocal basis, Wigner-Seitz cell, tilings; hostile constructor arguments", "All published tables."),
    "P23": ("path monitor: exact anchors, straightness, spacing", "Random and published paths."),
    "P24": ("numerical oracle: Rodrigues rotation, group relations, all constants", "Angles over many turns."),
    "P25": ("exact rational-arithmetic oracle for point/line location", "Points away from the tolerance band."),
    "P26": ("exact rational-arithmetic oracle for point/polygon location", "Convex polygons of up to about 12 corners."),
    "P27": ("twin-world history monitor: overwritten results and arguments, repeated random queries",
            "Over 100 kinds of queries of all parts."),
    "P28": ("memory sanitizer: guard pages, write protection, hostile neighbours, numba bounds checks",
            "Compiled kernels between inaccessible pages; the same strings in a build with bounds checks."),
    "P29": ("exact integer oracle (Pascal, recursions, enumeration, sector dimensions)", "n up to several thousand."),
    "P30": ("terminal emulator as decoder oracle", "All codes and notations of all schemes."),
    "P31": ("state monitor with fault injection: stdout, threads, files after every step of random programs",
            "Nested environments, exceptions at every point, failing entries, log collisions."),
    "P32": ("figure monitor: drawn artists read back and compared with the data", "Figures are captured, nothing is displayed."),
    "P33": ("round-trip monitor: printed forms evaluated and parsed", "All printable kinds."),
    "P34": ("end-to-end monitor: spectra against independent physics and invariances",
            "Clusters of up to 8 spinless, 4 spinful sites, 9 spins."),
    "P35": ("schedule monitor: controlled thread interleavings at lines and byte codes, free-running stress, answers against serial ones",
            "2 to 8 threads; interleavings sampled at random, thousands of hand-overs per schedule."),
    "P36": ("supercell oracle: independent enumeration of the parent lattice; histories with abused results", "Sizes up to 7."),
    "P37": ("end-to-end monitor: Green's functions of clusters against exact spectra of the crystals",
            "Clusters of at most 10 sites; programs that take longer than a few minutes are left out."),
    "P38": ("copy monitor: every kind of copy and a second process answer all identifying questions alike",
            "One second process per run, with another hash seed."),
    "P39": ("process-state monitor and leak monitor: settings, streams, files, memory before and after calls",
            "Leaks below 110 bytes per object are not seen."),
    "P40": ("differential monitor: the same programs in processes under randomly combined conditions, answers compared",
            "About 50 processes in the quick and 900 in the thorough tier; every condition is met, not every combination."),
    "P41": ("refusal monitor: valid calls with one injected fault must raise; arguments, objects and settings compared before and after",
            "About 200 kinds of faults; only faults excluded by the documentation."),
    "P42": ("metamorphic monitor: one request stated in several ways, answers compared",
            "About 85 callables; names, order and defaults of the parameters as documented at the start."),
    "P43": ("fault-injection monitor: exceptions raised at every line of running calls; state and later answers compared",
            "Calls into compiled code are interrupted before and after, not inside."),
}
NOT_APPLICABLE = []

props = [json.loads(line) for line in open(os.path.join(HERE, "properties.jsonl"))]
claimed = [p["id"] for p in props if os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py"))]
manifest = {
    "version": 1,
    "setup_cmd": "true",
    "checks": [
        {
            "property": pid,
            "quick_cmd": "./run.sh {0} quick".format(pid),
            "thorough_cmd": "./run.sh {0} thorough".format(pid),
            "evidence_file": "evidence/{0}.json".format(pid),
            "technique": T + CHECKS[pid][0],
            "level": "exploration",
            "level_note": CHECKS[pid][1] + " Holds on the executions observed (workload seeded by VERIF_SEED); trusts numpy, "
                          "scipy, the Python interpreter and the reference models in vlib.",
        }
        for pid in claimed
    ],
    "not_applicable": NOT_APPLICABLE,
    "notes": "run.sh starts the real package from /repo's working tree with empty byte-code and numba caches; no hooks in /repo.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
