# technique and assurance note per property
_T = "runtime monitoring: "
_N = "Randomised exploration: no violation on the executions generated and observed. "
NOTES.update({
 "P01": (_T + "request fuzzing; acceptance monitor against an independent predicate, probe components watch that nothing runs, state snapshots", _N + "Boundary values one ulp around every limit are part of the workload."),
 "P02": (_T + "stress workload over random real configurations with well-formedness monitors on every result", _N + "Totality over random combinations of components, not over all of them."),
 "P03": (_T + "metamorphic monitor (reversed sweeps must mirror the scan)", _N + "Bitwise up to 1e-9; includes sensors with a final rise and barrier sweeps."),
 "P04": (_T + "online comparison with an independent geometric reference model", _N + "Pixels touched by a transition may show either side."),
 "P05": (_T + "online judgement of every label against densely sampled reference transitions", _N + "Crossings within a quarter pixel of a pixel's border are not judged."),
 "P06": (_T + "metamorphic monitors (cuts, sub-windows, denser scans, ideal data)", _N + "Pixels touched by a transition are excluded in 2D."),
 "P07": (_T + "online comparison with an exact (root-finding free) reference curve, and metamorphic monitors", _N + "Look-up tables judged to one table spacing."),
 "P08": (_T + "online comparison with independent formulas", _N),
 "P09": (_T + "recording probe components; online checker of the pipeline specification over the call trace", _N + "Data flow is identified by unique affine signatures."),
 "P10": (_T + "recording probe components; online checker of the pipeline specification over the call trace", _N),
 "P11": (_T + "history workload, snapshots at measurement time compared with metadata then and later, rebuild from metadata", _N),
 "P12": (_T + "aliasing/scrambling workload, deep before/after snapshots and pristine twins", _N),
 "P13": (_T + "random operation histories on two live simulations, every result compared with a process that never used the library", _N + "The pristine process is a fork of a helper that has only imported the package."),
 "P14": (_T + "replay monitors with perturbed global generators and interleaved foreign draws; generator-state monitors", _N),
 "P15": (_T + "activation decoded from the data and compared with the reported flags; recorded sampler draws; aggregated frequencies", _N + "Statistical monitors: 6 standard deviations."),
 "P16": (_T + "trace decoding (segments) with an online checker and aggregated statistical monitors", _N + "Statistical monitors: 6 standard deviations."),
 "P17": (_T + "separation of noise and data; aggregated moments, distribution and spectrum", _N + "Statistical monitors: 6 standard deviations / 5 % of a spectral density."),
 "P18": (_T + "synthetic diagram in which every shift is recognisable; offline decoding and online checker of the block structure", _N),
 "P19": (_T + "online comparison with the untruncated kernel, metamorphic monitors", _N + "Values to 3e-3 of the data range."),
 "P20": (_T + "extents in volts read off the data per scan category, aggregated", _N + "Statistical monitors: 6 standard deviations."),
 "P21": (_T + "recording distortions, decoding of composed diagrams, generator-state monitors", _N),
 "P22": (_T + "online comparison with an independent model of the scan sensor", _N),
 "P23": (_T + "online judgement of every label against an independent model", _N + "Pixels within 1e-9 of a threshold are not judged."),
 "P24": (_T + "online comparison with independent formulas, round trips, monotonicity over random grids", _N),
 "P25": (_T + "online comparison with an independent model of the deformed peaks, metamorphic monitors", _N + "Three listed findings are probed and reported."),
 "P26": (_T + "online range/last-sample monitors over draw sequences, aggregated distribution tests", _N + "Statistical monitors alarm at p < 1e-9."),
 "P27": (_T + "sampling workload; every sampled configuration judged against documented ranges and measured", _N),
 "P28": (_T + "stress scans over the limits of every shipped configuration, with plausibility monitors and reference totals", _N),
 "P29": (_T + "input fuzzing incl. degenerate inputs, algebraic identity monitors", _N),
 "P30": (_T + "drawn matplotlib artists are read back and compared with the data", _N + "Agg back end."),
 "P31": (_T + "reset sequences; potential at the sweep start read from noise-free scans, state snapshots", _N),
 "P32": (_T + "random assignment histories against a model of the settings, twin comparison", _N),
 "P33": (_T + "evaluate-printed-form round trips with twin scans", _N),
 "P34": (_T + "random setting histories against freshly built twins, refused values, copies and sensors sharing parts", _N),
 "P35": (_T + "argument fuzzing of exported functions; comparison with formulas, components and other argument forms; argument snapshots", _N),
 "P36": (_T + "metamorphic twin executions of the same device in other units, with other origins and exchanged gates; online comparison of occupations, labels, masks and signals", _N),
 "P37": (_T + "physical invariants (charge conservation, monotonic charging, one electron at a time, assignment of lines to dots) judged online without a reference diagram", _N),
 "P38": (_T + "copy/pickle twins at random points of random histories; seeded deterministic interleaving of threads at source lines, every result compared with the run alone", _N),
 "P39": (_T + "recording of user warnings around every call, judged against the situation that was set up", _N),
})
