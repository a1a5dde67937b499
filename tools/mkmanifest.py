#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
import os
T = {
 "C01": ("monitored loads of generated volumes, voxels compared with the bytes on disk", "every voxel of every generated file"),
 "C02": ("fault injection on files and inputs, monitor demands a refusal", "truncations, extensions, damaged names and headers"),
 "C03": ("differential monitor over input forms of one image", "values and scores of the forms against each other"),
 "C04": ("monitored normalization against an exact rescaling model", "float64/integer reference model, monotonicity and range assertions"),
 "C05": ("monitored cropping against plain indexing and pre-cropped scores", "every element of the block"),
 "C06": ("write monitor: byte snapshots around every public call", "arrays, tensors, parameters and files"),
 "C07": ("online oracle: float64 reference model of RMSE and PSNR", "values, symmetry, identity"),
 "C08": ("online oracle: windowed float64 reference model of SSIM and UQI", "values, symmetry, bounds, refusals"),
 "C09": ("online oracle: float64 reference model of GSM", "values over pixel types and constants"),
 "C10": ("differential monitor: volume and slice scores against 2D scores", "slices extracted by the monitor"),
 "C11": ("differential monitor against the wrapped library", "trusts piq as the published reference implementation"),
 "C12": ("online oracle: float64 reference model of MAD", "values over sizes, blocks and settings"),
 "C13": ("online oracle: direct block statistics for the native module", "values over layouts and types"),
 "C14": ("AddressSanitizer and UBSan build of the native module, allocation counters, fill patterns", "sanitizer reports, memory growth, exit status"),
 "C15": ("online oracle: ratios over masks built by the monitor", "values and refusals at all borders"),
 "C16": ("online oracle: distance-transform model of the region search", "centre, radius, region and scores"),
 "C17": ("trace checker: random call histories against a sequential model of metric objects", "returned, stored, compared and printed values"),
 "C18": ("threads with injected context switches, scores against sequential ones", "schedules are sampled, not enumerated"),
 "C19": ("differential monitor: joint evaluation against stand-alone metrics", "result dictionaries key by key"),
 "C20": ("trace checker: batch rows against independent evaluation", "random row histories and regions"),
 "C21": ("offline checker over exported files against results in memory", "files parsed back"),
 "C22": ("monitored refusals and luminance model", "every full-reference metric"),
 "C23": ("differential monitor: array programs on image arrays and plain arrays", "results, types, side effects, statistics"),
 "C24": ("online oracle: reference models of filters, kernels against definitions", "arrays element by element"),
 "C25": ("recorded plotting calls and exported files checked against the image", "artists of the drawn figures"),
 "C26": ("scripts run under shuffled directory listings, outputs read back", "every voxel, row and copy"),
 "C28": ("trace checker: random user actions on the real dialog widgets against a model of the dialogs", "histories over several open dialogs"),
 "C29": ("fault injection: imports of the optional packages fail, observations compared with an intact process", "every subset of missing packages"),
 "C31": ("metric axioms monitored on identical, extreme, swapped and increasingly distorted pairs through every entry point", "identity, limits, order, strength of distortion"),
 "C30": ("process-state monitor around all other workloads, also interrupted; the same workloads in other surroundings", "31 kinds of process state, threads, interpreters, copies"),
}
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
man = {
    "version": 1,
    "setup_cmd": "true",
    "checks": [{
        "property": k, "quick_cmd": f"./run.sh {k} quick", "thorough_cmd": f"./run.sh {k} thorough",
        "evidence_file": f"evidence/{k}.json", "technique": "runtime monitoring: " + t,
        "level": "exploration",
        "level_note": "Real code observed on seeded generated executions (" + n + "). Nothing is "
                      "claimed beyond the executions observed; trusts numpy, scipy and the monitors' "
                      "own reference models.",
    } for k, (t, n) in T.items()],
    "not_applicable": [{
        "property": "C27",
        "reason": "The native part of QMeasure is an empty git submodule in this sandbox, so the code "
                  "cannot be executed and there is nothing to monitor."}],
    "notes": "No hooks in /repo: all instrumentation is outside (fresh builds of the native module, "
             "sys.monitoring, wrapped system calls, recorded plotting calls).",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
