"""writes properties.jsonl and MANIFEST.json from one table (run by hand after editing)"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F3, F2, R3, R2 = "src/fft3d.cpp", "src/fft2d.cpp", "src/remap3d.cpp", "src/remap2d.cpp"
P = []


def prop(id, title, statement, over, text, why, files, mech, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=mech, where=", ".join(files[:4]))], observe_at=observe or []), note=note))


prop("C01", "The forward transform is the distributed discrete Fourier transform",
     "For every 2d or 3d grid whose sizes are products of 2, 3 and 5, every input and output tiling and every storage permutation, a forward transform leaves on each rank exactly the unscaled discrete Fourier transform of the global input, restricted to that rank's output tile in the requested storage order, correct to rounding. This holds in place and out of place, in single and double precision, and for every number of ranks.",
     ["inputs", "configurations"], "all grids, tilings, permutations, rank counts, precisions, 1d libraries and input values",
     "The tests only round-trip random data through in-place forward+backward pairs, on bricks and pencils of regular decompositions, with a few grid sizes: a wrong forward transform whose inverse undoes it, uneven or irregular tilings and out-of-place use are not observed.",
     [F3, F2, R3, R2, "src/kissfft.h", "src/pack3d.h", "src/pack2d.h"],
     "setup() chooses pencil decompositions and remap plans, compute() alternates remaps and 1d transforms",
     "every recorded forward transform is compared by TLC, value by value, with the DFT defined in Dft.tla/FftSys.tla; all tilings of small grids (enumerated by TLC) and thousands of sampled larger problems, not all",
     ["values read back from the output array after compute"])
prop("C02", "The backward transform inverts the forward one, scaled exactly when asked",
     "A backward transform takes data in the output tiling and storage order to the inverse discrete Fourier transform in the input tiling, divided by the number of grid points when scaling is on and unscaled when it is off; scaling never applies to forward transforms. Forward then backward (or the reverse order) therefore reproduces the data to rounding, in place and out of place, for any number of repetitions and when the scaling setting is toggled between calls.",
     ["inputs", "configurations", "histories"], "all problems, call orders and settings of the scaling option",
     "The tests only round-trip in place with scaling on and layouts whose tiles have the same size on input and output; unscaled, out-of-place, backward-first and uneven layouts are never run.",
     [F3, F2], "compute() with flag -1, rescaling after the last stage",
     "as C01, with the algebra F F = N R of FftSys.tla for chains of transforms")
prop("C03", "Communication, exchange, packing and memory options never change results",
     "For a given problem every choice of the collective, exchange, packing and memory options, on any number of ranks, gives the same result as any other choice: the same values in the same places of the output arrays. Options affect speed and memory only.",
     ["configurations", "inputs"], "all 3x2x3x2 option settings crossed with all problems",
     "The tests run a selection of option settings on a handful of symmetric layouts and only look at the round trip.",
     [F3, F2, R3, R2, "src/pack3d.h", "src/pack2d.h"],
     "remap plans with point-to-point or all-to-all exchange, three packing variants, pencil or brick intermediate layouts",
     "each option setting of a problem is judged against the same abstract result; small tilings are enumerated by TLC")
prop("C04", "A remap is an exact rearrangement of the distributed data",
     "A stand-alone 2d or 3d remap moves every datum, of any number of values per point, to the rank and position that the output tiling and the storage permutation prescribe, bit for bit, and puts nothing else there. This holds for all pairs of tilings of the same grid including empty and one-point tiles, in place and out of place, with library-owned or caller-owned buffers, for every option, and for repeated use of the same plan.",
     ["inputs", "configurations"], "all grids, tilings, permutations, values per point, options and rank counts",
     "No test runs the remap classes directly; transforms only exercise two values per point and the layouts the FFT picks itself.",
     [R3, R2, "src/pack3d.h", "src/pack2d.h", "src/remap3d_wrap.cpp", "src/remap2d_wrap.cpp"],
     "overlap computation of tiles, message packing and unpacking, self copies, grouping of ranks for all-to-all exchange",
     "every value is a distinct token; TLC computes the position each must end at; pairs of tilings of small grids are enumerated by TLC")
prop("C05", "Every call completes on every rank under every message timing",
     "When all ranks of a communicator make the same sequence of legal calls, every call returns on every rank whatever the relative speed of the ranks, the order in which messages arrive or complete, and whether sends are buffered or wait for their receivers. No message, request or collective operation is left pending, and the results do not depend on the timing.",
     ["schedules"], "all interleavings of ranks, message completion orders and send buffering",
     "The tests run under one MPI library whose small messages are always buffered and whose timing varies little; a missing receive, a send before its receive or an order-dependent unpack goes unnoticed.",
     [R3, R2, F3, F2], "receives posted before sends, wait-any unpacking, all-to-all on sub-communicators, collectives in setup",
     "recorded communication programs are model checked over all interleavings in TLC; runs under random and enumerated schedules of a simulated MPI are judged against the specification")
prop("C06", "Only the advertised memory is touched and the advertised sizes suffice",
     "With arrays of exactly the tile sizes or returned FFT size, and caller-provided buffers of exactly the returned sizes, no call reads or writes outside them, and results are correct. An out-of-place call leaves its input array unchanged.",
     ["inputs", "configurations"], "all problems, options and memory modes",
     "The tests allocate through the library in symmetric layouts, where the returned size usually equals the tile size; overruns by a few elements pass silently.",
     [F3, F2, R3, R2], "computation of the returned sizes as maxima over all remap stages",
     "guard zones and ASan poisoning around exact-size arrays; inputs compared before and after")
prop("C07", "Tuning agrees on all ranks, picks the fastest trial and obeys its limits",
     "After tuning, all ranks use the same communication, exchange and packing settings and have recorded the same trials, whatever their clocks measured; the settings are those of the fastest trial of the documented sequence, no trial runs more transforms than requested, and without a time limit all nine trials run. With a time limit, as many of the documented trials and transforms per trial run as the limit leaves room for when every trial costs what the first one did, and tuning takes no longer than the limit (apart from the final setup) as long as no trial's setup or transform costs more than the first one did and the limit leaves room for that first one. Tuning always completes, the sizes it returns are those of the chosen settings, and transforms afterwards are correct.",
     ["inputs", "schedules", "configurations"], "all per-rank clock readings, time limits, trial flags and problems",
     "No test tunes on more than one rank; real clocks do not produce the disagreements that make ranks diverge.",
     [F3, F2], "trial run, broadcast of its time, choice of the number of trials, selection of the minimum",
     "scripted per-rank clocks; the decision is re-derived in TLA+ from the recorded trial times")
prop("C08", "Misuse ends all ranks with the documented error, never anything else",
     "A call with an illegal argument or out of order (bad precision, sizes, indices or tilings on any one rank, second setup, computing before setup or before buffers are given, bad tuning arguments) ends the program on every rank of the communicator with a nonzero exit status and one error message from the first rank. It never hangs, crashes, returns or disturbs ranks outside the communicator, and legal calls never report an error.",
     ["inputs", "histories"], "all illegal argument combinations, on any subset of ranks, after any legal history",
     "No test makes an erroneous call.",
     [F3, F2, R3, R2, "src/error.cpp"], "collective validation in setup and tune, state flags, error exit on all ranks",
     "the error each history must end with is derived by the specification; histories generated by TLC from it (FftGen) and sampled ones")
prop("C09", "Deleting an object releases everything it acquired",
     "After an FFT or remap object is deleted, all heap memory, communicators, groups, requests and datatypes acquired on its behalf are released on every rank, for any history: never set up, set up, tuned, used, with caller memory, and with settings changed after setup.",
     ["histories", "configurations"], "all object histories and options",
     "The tests delete once at exit and nothing measures what remains.",
     [F3, F2, R3, R2, "src/memory.cpp"], "destructors, setup deallocation after tuning trials, sub-communicators of all-to-all plans",
     "resource counters before creation and after deletion must be equal on every rank")
prop("C10", "The C and Fortran interfaces behave exactly like the C++ classes",
     "Every operation reached through the C or the Fortran interface (create, set, setup, tune, memory setup, compute, partial operations, remaps, queries, destroy) has the same effects, returned sizes, query answers and errors as the corresponding C++ call, with arguments passed in the documented order.",
     ["programs", "inputs"], "all calls and arguments through all three interfaces",
     "The C and Fortran tests use symmetric arguments for a few calls, so swapped or dropped arguments and the remap, memory and query wrappers are not observed.",
     ["src/fft3d_wrap.cpp", "src/fft2d_wrap.cpp", "src/remap3d_wrap.cpp", "src/remap2d_wrap.cpp", "src/fft3d_wrap.f90", "src/fft2d_wrap.f90", "src/remap3d_wrap.f90", "src/remap2d_wrap.f90"],
     "thin wrappers that forward arguments and keywords",
     "one abstract behaviour for all three interfaces; query answers compared pairwise")
prop("C11", "Partial operations are the corresponding parts of a transform",
     "All remaps of a transform, performed together, one by one in order, or by a transform in remap-only mode, move the data from the source to the destination layout of that direction without changing any value. The 1d transforms alone move no data between ranks and keep an all-zero array zero, and none of these disturbs later full transforms.",
     ["inputs", "histories"], "all problems, directions, single-remap chains in and out of place",
     "The tests time these operations on zero-filled arrays and never look at the data.",
     [F3, F2], "only_remaps, only_one_remap, only_1d_ffts, remap-only mode of compute",
     "chains of single remaps are tracked in the specification as intermediate content")
prop("C12", "Results depend only on the current data and settings, not on history",
     "Any number of FFT and remap objects can be created, used, interleaved and deleted in any order, reusing arrays, and each call's result depends only on its arguments and the object's settings. The communication, exchange, packing and memory options take effect at setup and changing them afterwards changes nothing; scaling and remap-only take effect at the next call.",
     ["histories"], "all interleavings of calls on several objects, arrays and option changes",
     "Each test uses one object once, in one fixed order.",
     [F3, F2, R3, R2], "plan state kept in objects between calls",
     "random legal histories over several objects, each step explained by the specification; histories generated by TLC from it (FftGen) are replayed")
prop("C13", "Ranks that own nothing and more ranks than data are fine",
     "Any rank may own an empty input tile, output tile or both, and the number of ranks may exceed the number of grid lines or points: every call still completes and the ranks that own data get the correct results.",
     ["inputs", "configurations"], "all tilings with empty tiles, all rank counts relative to the grid",
     "The tests give every rank data on input and output in all but a few decompositions.",
     [F3, F2, R3, R2], "plans with no messages, zero-size buffers, groups of ranks without overlap",
     "as C01/C02/C04 on tilings dominated by empty tiles")
prop("C14", "Reported statistics describe the plan in use",
     "After setup or tuning the queries return the settings in use, processor decompositions that multiply to the number of ranks with one rank along each pencil direction and are identical on all ranks, no brick decomposition when bricks are not used, the names of the 1d library and precision, and a memory usage that is neither less than the buffers in use nor more than what the object holds. An object that was not tuned reports no trials. After tuning, the best settings reported are those in use, the best time is that of a transform with these settings, and the times of the parts of a transform are reported exactly when they were asked for and are those of the parts, and the setup time is that of the final setup.",
     ["configurations", "inputs"], "all problems, rank counts and options",
     "Tests print these values without checking them.",
     [F3, F2, "src/fft3d_wrap.cpp", "src/fft2d_wrap.cpp"], "public variables filled by setup and tune",
     "checked by TLC against the abstract plan")
prop("C15", "Objects on any communicator work and do not interfere",
     "An object created on a communicator with any subset of the ranks in any order works with that communicator's ranks and rank order. Objects on overlapping or disjoint communicators, including ones used at the same time by different ranks, do not disturb one another, and ranks outside a communicator are not involved.",
     ["configurations", "schedules"], "all subsets and orders of ranks, all interleavings of objects",
     "Every test uses one object on all ranks in their natural order.",
     [F3, F2, R3, R2], "all communication on the communicator passed by the caller and communicators derived from it",
     "layouts carry the member list; interleaved calls on several communicators are judged like any other run")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            q = {k: v for k, v in p.items() if k != "note"}
            if not q["anchors"]["observe_at"]:
                del q["anchors"]["observe_at"]
            assert len(q["title"]) <= 80, q["title"]
            f.write(json.dumps(q) + "\n")
    m = dict(version=1, setup_cmd="bash setup.sh",
             hooks=dict(guard="none: the library is observed through its public interface and a replacement mpi.h, without hooks in /repo",
                        enable="nothing to enable", source_commits=[]),
             checks=[dict(property=p["id"], quick_cmd="python3 vf/check.py --property %s --tier quick" % p["id"],
                          thorough_cmd="python3 vf/check.py --property %s --tier thorough" % p["id"],
                          technique="TLA+ specification checked with TLC; recorded runs of the real code under a simulated MPI validated against it",
                          level="model_checking", level_note=p["note"], evidence_file="evidence/%s.json" % p["id"]) for p in P],
             not_applicable=[])
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
