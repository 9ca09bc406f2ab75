#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = "TLA+ specification (TLC); "
CHECKS = {
 "C01": (MC + "recorded executions of the real logger under a controlled scheduler validated against NanoLogSpec", "Every recorded execution (thousands of schedules per run, small buffers, plus free-running stress with real threads) is accepted step by step by NanoLogSpec; the design model NanoLogImpl is checked exhaustively for small constants. Bounded: at most 4-8 threads (20 in one family) and a few dozen messages per execution, sequentially consistent schedules under the controlled scheduler."),
}
NA = {}
def main():
    props = [json.loads(l) for l in open(V + "/properties.jsonl")]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in CHECKS:
            t, note = CHECKS[i]
            checks.append(dict(property=i, quick_cmd="bin/check %s quick" % i, thorough_cmd="bin/check %s thorough" % i,
                               evidence_file="evidence/%s.json" % i, technique=t, level="model_checking", level_note=note))
        else:
            na.append(dict(property=i, reason=NA.get(i, "Check under construction.")))
    m = dict(version=1, setup_cmd="true",
             hooks=dict(guard="NANOLOG_VERIF_BUFFERS",
                        enable="-DNANOLOG_VERIF_BUFFERS -DNANOLOG_VERIF_STAGING_SIZE=<n> -DNANOLOG_VERIF_OUTPUT_SIZE=<n> when the checks compile /repo/runtime; without it Config.h is unchanged",
                        source_commits=["260e367"]),
             checks=checks, not_applicable=na,
             notes="Every check builds what it needs from /repo's working tree in a scratch directory under /tmp and removes it. See DESIGN.md.")
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
    open(V + "/MANIFEST.json", "a").write("\n")
CHECKS["C08"] = (MC + "every interleaving of the two sides' memory accesses model-checked (StagingBuffer); generated operation sequences and schedules executed on the real StagingBuffer and validated step by step (TraceQueue)",
  "Design model exhaustive for small capacities; the implementation is driven through generated sequences of reserve/commit/peek/consume with every memory access a scheduling point, buffer sizes of 8 to 4096 bytes. Sequentially consistent memory.")
CHECKS["C10"] = (MC + "generated operation sequences (buffers, dictionary entries, messages, chunks) executed on the real Encoder, every call and the decoded result validated against Encoder",
  "Both front ends' encoders; buffer sizes 28..4000 bytes, guard bytes around every buffer, chunk sizes including 0 and partial messages, thread ids on both sides of every encoding boundary. Bounded sequences (up to about 40 operations).")
LOGN = "Exhaustive for short layouts, random for longer ones (TLC simulation). Files contain what the encoder can write; corruption other than truncation is out of scope."
LOGT = MC + "log-file layouts generated by TLC, written with the real Encoder, decoded with the real Decoder, decodings validated against LogFile"
for i in ("C11", "C13", "C14"):
    CHECKS[i] = (LOGT, LOGN)
CHECKS["C12"] = (LOGT + "; the merge algorithm itself model-checked (ChronoImpl)", LOGN)
CHECKS["C15"] = (MC + "the packing scheme model-checked (Packer); boundary values enumerated by TLC and random streams replayed through the real pack/unpack, validated against Packer",
  "All 8- and 16-bit values, boundary neighbourhoods and strided sweeps of wider ones (every 32-bit value in thorough), random descriptor streams up to 100 values; optimised builds with gcc (and clang in thorough).")
CHECKS["C19"] = (MC + "calendar, zone and rounding rules specified and model-checked (Clock); generated instants, reference points and zones rendered by the real Decoder and validated against Clock; live and instrumented programs on a controlled clock",
  "Generated and random instants between 1902 and 2500 in several POSIX and tz-database zones, ticks before and after the reference point; tolerance of the double-precision conversion documented. Live runs use a stand-in clock.")
for i in ("C02", "C03", "C04", "C05", "C06", "C07", "C09"):
    CHECKS[i] = CHECKS["C01"]
CHECKS["C16"] = (MC + "the grammar and meaning of printf format strings specified and model-checked (Format, FormatGen); every generated format analysed by the real constexpr scanner, createMicroCode and the preprocessor's parser, results validated against the specification (TraceFormat)",
  "All short combinations of flags, width, precision, length and conversion, several conversions and literal pieces (escapes, percents, look-alikes) up to seven items at random; up to 255 conversions (the dictionary's counter).")
PRN = "Random statements (TLC simulation) over all conversions, flags, widths, precisions and length modifiers with boundary values of every argument type, up to 120 arguments, several rounds each; rendering of floating-point digits is taken from the C library one conversion at a time, everything else is computed by the specification."
CHECKS["C17"] = (MC + "programs with generated log statements compiled with the real front end, run, decompressed with the real Decoder; each message's text validated against the printf specification (Printf, TracePrint), which is itself checked against snprintf on every statement", PRN)
CHECKS["C18"] = (MC + "the surface syntax of log statements and their surroundings specified (Source); TLC generates source files whose statements its own reader of the text recognises, the real preprocessor and compiler build them, and outputs and logs are validated (TraceSource); generated formats and arguments through Printf/TracePrint as for C17",
  PRN + " Programs of three files (two units sharing a header) with statements in 9 layouts, 41 surrounding contexts, 34 formats and 4 spellings of the level, drawn at random; compiled from the compiler's own -E output.")
CHECKS["C20"] = (MC + "the same generated programs (both front ends) read back message by message with the real Decoder; argument counts, values, ids and timestamps validated against Printf (TracePrint)", PRN)
CHECKS["C21"] = (MC + "what each command of the decompressor reports about a log is specified (Tool); TLC generates logs (executions, threads, messages, values, intervals), a real program of either front end writes them, the real tool is run on them with every command, and outputs and exit statuses are validated (TraceTool)",
  "12 log statements; logs of up to three executions and several threads each, values up to the limits of 32 bits; latency curves for logs of one thread and one execution. The layout of the tool's printed reports is taken as its interface.")
CHECKS["C22"] = (CHECKS["C01"][0] + "; statistics read at quiescent points are part of the trace (guards G_Stat*)", CHECKS["C01"][1])
CHECKS["C23"] = (MC + "the ring buffers and the merge model-checked (MCTimeTrace); generated sequences of recording, printing and resetting executed on the real TimeTrace, the printed traces validated (TraceTimeTrace)",
  "Model exhaustive for two buffers of 4 slots; the implementation is driven with up to four threads and a free-standing buffer, runs of 1 to 20000 events, slow readers of the printed trace. Operations are otherwise executed one at a time.")
if __name__ == "__main__":
    main()
