#!/usr/bin/env python3
"""Writes MANIFEST.json. Checks that are not built yet are listed as not applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SAN = "AddressSanitizer+UBSan with libstdc++ assertions"
TRUST = ("Explores generated inputs, histories and schedules only. Trusts the stand-ins for ROS 2 (stubs/), the sanitizers, "
         "the installed Eigen and Ceres, and the reference computations in the harness. ")
T = {
 "C01": ("online oracle for likelihood range, finiteness and locality under ASan/UBSan", "Degenerate, coincident, collinear and huge coordinates included."),
 "C02": ("online oracle over cell statistics under ASan/UBSan", "Reference statistics of each cell in long double; intervals wide enough for rounding."),
 "C03": ("memory-safety sanitizers plus grid-containment monitor", "Every query is also compared with a reference cell lookup."),
 "C04": ("history monitor over Scan setters and getters", "Compares caches with recomputation after every step."),
 "C05": ("oracle over constraints built from arbitrary covariances", "Eigenvalues recomputed independently."),
 "C06": ("oracle over optimization results", "Compares with an independent dense Gauss-Newton solution and cost function."),
 "C07": ("fault-injecting history monitor over the solver under ASan/UBSan", "Bit-exact comparison of poses around failures."),
 "C08": ("model-based monitor of KD-tree histories", "Compares leaf counts with a set of bins."),
 "C09": ("statistical monitor of motion model samples", "Thresholds at about 7 sigma, with the device seeded."),
 "C10": ("online oracle of particle statistics", "Recomputes mean and covariance from the published particles and model weights."),
 "C11": ("conservation monitor over resampling", "Particle counts, provenance and weights are tracked across resampling."),
 "C12": ("fault-injecting history monitor over the particle filter", "Scores that are NaN, infinite, zero or underflow."),
 "C13": ("oracle over scan matcher scores under ASan/UBSan", "Scores recomputed through scorePoints over the search grid."),
 "C14": ("oracle over scan matcher covariances", "Moments recomputed over the same search grid."),
 "C15": ("history and memory-safety monitor over the scan matcher", "Reference NDT, arbitrary positions, resets and empty ranges."),
 "C16": ("oracle over the extent and placement of occupancy grids", "All histories of growing, shrinking, and moving scans on one object."),
 "C17": ("oracle over occupancy grid cells", "Full render compared with the sum of single-beam renders and a reference line."),
 "C18": ("round-trip monitor over save and load", "Bit-exact comparison through the message stand-ins."),
 "C19": ("oracle over nearest-scan search", "Brute force, with a stand-in for nanoflann that keeps its squared-distance contract."),
 "C20": ("trace monitor over published markers", "Multiset comparison of markers with scans and constraints."),
 "C21": ("ThreadSanitizer and AddressSanitizer over stressed schedules of the real node", "Real threads with injected delays at locks and calls to the outside; freedom from races is shown for the schedules seen."),
 "C22": ("ray-casting oracle over scans stored by the real node", "Random worlds, mountings and motions."),
 "C23": ("online trace monitor over poses, matcher calls and transforms of the real node", "A reference model follows every localization event."),
 "C24": ("online trace monitor over map snapshots and matcher calls of the real node", "Snapshots are taken through saves at every outside call."),
 "C25": ("trace monitor over loop closures of the real node", "A mock matcher plays scores and records regions; a reference model predicts each search."),
 "C26": ("trace monitor over the maps scans are matched against", "A mock matcher records what every match was made against."),
 "C27": ("model-based monitor over histories of requests, poses, scans and faults", "State compared bit-exactly through saves."),
 "C28": ("trace monitor over publications with virtual time", "Publishing cycles are stepped, and changes injected inside them."),
 "C29": ("fault-injecting differential monitor over laser messages", "A run with degenerate messages is compared with one without."),
 "C30": ("trace monitor over requests of the real scripts", "A stand-in for rclpy records every call; service start-up and replies are delayed."),
 "C31": ("differential and statistical monitor over nodes with random parameters", "Variances at about 7 sigma; late transforms are simulated by the stand-in for tf2."),
 "C32": ("end-to-end monitor over a simulated robot with the real matcher and optimizer", "Error bounds are about three times the worst seen in a thousand trips."),
}
NA = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
have = lambda p: (p in ("C30",) or os.path.exists(os.path.join(V, "harness", "h_race.cpp" if p == "C21" else "h_mapper.cpp")) or int(p[1:]) < 21)
m = dict(version=1, setup_cmd="python3 lib/check.py --setup", checks=[], not_applicable=[],
         notes="No hooks in /repo: the monitors observe public interfaces, stand-ins for ROS 2, and symbols wrapped at build time.")
for p in props:
    i = p["id"]
    if have(i) and i not in NA:
        m["checks"].append(dict(property=i, quick_cmd="python3 lib/check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 lib/check.py " + i,
                                evidence_file="evidence/%s.json" % i, technique=T[i][0], level="exploration", level_note=TRUST + T[i][1]))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "its monitor is still being built")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
