"""Which programs decide which property, and how many cases each tier generates."""


def part(src, quick, thorough, what="", **kw):
    d = {"src": src, "quick": quick, "thorough": thorough, "what": what}
    d.update(kw)
    return d


CHECKS = {
    "C27": [part("c27.cpp", 130000, 2000000, fuzz=False, extra=[("c27/nothrow.cpp", ["-DHART_DO_NOT_THROW_EXCEPTIONS=1", "-Dhart=hart_quiet", "-Dhv=hv_quiet"])])],
    "C26": [part("c26.cpp", 10000, 200000, fuzz=False)],
    "C25": [part("c25.cpp", 15000, 200000, fuzz=False, program=["c25/main.cpp", "c25/a.cpp", "c25/b.cpp"])],
    "C24": [part("c24.cpp", 20000, 300000, fuzz=False)],
    "C17": [part("c17.cpp", 11000, 165000, fuzz=False)],
    "C16": [part("c16.cpp", 126000, 1890000)],
    "C15": [part("c15.cpp", 165000, 2475000)],
    "C12": [part("c12.cpp", 73000, 1095000)],
    "C11": [part("c11.cpp", 220000, 3300000)],
    "C10": [part("c10.cpp", 94000, 1410000)],
    "C07": [part("c07.cpp", 165000, 2475000)],
    "C06": [part("c06.cpp", 60000, 900000)],
    "C05": [part("c05.cpp", 183000, 2745000)],
    "C04": [part("c04.cpp", 733000, 10995000)],
    "C03": [part("c03.cpp", 220000, 3300000)],
    "C02": [part("c02.cpp", 110000, 1650000)],
    "C01": [part("c01.cpp", 165000, 2475000)],
    "C08": [part("c08.cpp", 132000, 1980000)],
    "C09": [part("c09.cpp", 550000, 8250000)],
    "C13": [part("c13.cpp", 1886000, 28290000)],
    "C14": [part("c14.cpp", 1467000, 22005000)],
    "C18": [part("c18.cpp", 660000, 9900000)],
    "C19": [part("c19.cpp", 60000, 900000), part("c19.cpp", 60000, 900000, flags=["-DHART_DO_NOT_THROW_EXCEPTIONS=1"])],
    # dr_wav asks for the claimed size of the audio at once; like without the sanitizer, a request too large gives NULL
    "C20": [part("c20.cpp", 220000, 3300000, asan="allocator_may_return_null=1:max_allocation_size_mb=256:max_malloc_fill_size=1048576")],
    "C22": [part("c22.cpp", 165000, 2475000)],
    "C23": [part("c23.cpp", 220000, 3300000)],
    "C21": [part("c21.cpp", 1467000, 22005000)],
}
RULES = {
    "C01": "A case is a host configuration (rate, channel counts, block size, duration, input signal, parameter values), a recording effect with a random set of supported layouts and rates, and its position (under test or in the chain). Non-trivial: the run takes more than one block, or it is refused because the effect does not support it.",
    "C02": "A case is a host configuration, an input signal played from random samples by a player effect, an output written by the effect under test and 1..6 recording matchers (block-capable, whole-signal; positive, inverted; expect, assert). Non-trivial: more than one block and more than one matcher, or a refused channel count or rate.",
    "C03": "A case is known output audio and 1..7 checks of random kinds (stock matchers, counting and poisoned ones, lambdas; expect/assert, true/false). Non-trivial: at least one check disagrees and there is more than one.",
    "C04": "A case is random audio (with levels at, just above and just below the thresholds, NaN and infinite samples), a stock matcher and a block size. Non-trivial: the audio is not all zeros.",
    "C05": "A case is audio with planted faults and one failing check whose report is parsed. Non-trivial: exactly one sample can be the one reported and it is not the first frame.",
    "C06": "A case is a stock signal with a chain, effects with automation and two block sizes, two runs or two durations. Non-trivial: the audio is not silent and longer than two frames.",
    "C07": "A case is a history of 3..30 operations over a pool of signals with chains. Non-trivial: a signal is used after another one which it was copied from, moved from or copied to was used, and more than two frames were rendered.",
    "C08": "A case is one signal with random settings, rate, channels and block sizes, or a pair of noises. Non-trivial: more than one frame.",
    "C09": "A case is a sweep with random settings made by constructor and modifiers, rendered in blocks. Non-trivial: more than two frames and a sweep longer than two frames.",
    "C10": "A case is a generated wav file (format, channels, rate, frames) and a history of prepare, reset, render and copy. Non-trivial: playback crossed the end of the file, wrapped around, used fewer channels than the file has, or was refused.",
    "C11": "A case is random audio (full scale, beyond, quantisation boundaries) saved in a random format and decoded by an independent reader. Non-trivial: more than two samples, or a file which cannot be created.",
    "C12": "A case is a run with random save modes, paths (relative, absolute, nested, data root), failing or passing checks. Non-trivial: a wav file or a plot was requested.",
    "C13": "A case is an effect with random values and a history of setValue, reset, prepare and process (separate or in place). Non-trivial: audio was processed.",
    "C14": "A case is an envelope of 0..7 segments of random kinds and lengths, rendered in blocks, after resets and from copies. Non-trivial: it has a ramp and more than two frames are rendered.",
    "C15": "A case is an effect with up to five attachments of envelopes, under test or in a chain, through one to three runs at different rates and block sizes. Non-trivial: an envelope with segments is in force and more than one frame is rendered, or an attachment is refused.",
    "C16": "A case is a signal with 0..5 effects added in random ways. Non-trivial: at least two effects of different kinds, or a chain which is refused.",
    "C17": "A case is a whole process of the runner with generated tests and generators. Non-trivial: some but not all selected tasks fail, or more than two tasks are shuffled.",
    "C18": "A case is a sequence of operations over a pool of four buffers, each compared with a model after every operation. Non-trivial: at least one copy or move and at least one append.",
    "C19": "A case is a sequence of 1..24 legal and illegal settings followed by a run. Non-trivial: at least one was refused and at least two accepted.",
    "C20": "A case is a well-formed wav file, a damaged one (truncated, bytes or fields changed, chunks repeated or swapped) or arbitrary bytes behind a header. Non-trivial: a well-formed file with an encoding, chunk or header beyond the plain one; a damaged one which still opens or is refused after its header; more than 12 arbitrary bytes.",
    "C21": "A case is a helper with random arguments from its whole domain, with boundary values favoured. Every case is non-trivial; distinct ones are counted.",
    "C22": "A case is a stock signal, effect, matcher or chain with random settings and a random precision of every unit. Non-trivial: the text has at least two numbers.",
    "C23": "A case is a history of constructing, setting, automating, copying, moving, assigning, running and returning effects. Non-trivial: there was a copy, an assignment or a second run, and an envelope or an effect returned from more than one run.",
    "C24": "A case is a whole process of the runner with a generated command line. Non-trivial: at least two options, a fault, or a request for help.",
    "C25": "A case is a run of a program of three source files (linked in two orders) with a generated behaviour of every test and generator and a generated command line. Non-trivial: a task fails and one compares settings or uses objects or failures of another file, or a name is registered twice.",
    "C26": "A case is a history of 2..6 runs in one process (both sample types, other settings, runs refused or interrupted, objects shared or handed on) and the same run in a process of its own. Non-trivial: the run compared is not the first and was carried out.",
    "C27": "A case is a script of 1..24 operations (buffers, effects, automation, signals, runs, tasks, registrations; legal and illegal) performed in a build with exceptions and in one without. Non-trivial: at least one is refused and at least two are not.",
}
COMMON = "Cases are drawn by the choice-sequence engine in engine/pbt.hpp, seeded with VERIF_SEED; each case is a pure function of its choices. Distinct: by the hash of the choices consumed."
RULES = {k: v + " " + COMMON for k, v in RULES.items()}
ASSUMPTIONS = {
    "*": ["Built with g++ 13, -std=c++17, -O0, address and undefined-behaviour sanitizers (the coverage-guided part of the thorough tier with clang 18).",
          "The reference models in engine/common.hpp and in the check are right.",
          "Sample rates, durations and levels stay within the ranges of the generators (finite, rates up to 1 MHz, runs of up to some thousand frames)."],
    "C11": ["NaN samples are not saved: their conversion to integers is undefined."],
    "C12": ["The plot's traces are read back from its SVG polylines."],
    "C14": ["Exponential ramps start and end on the same side of zero (see the known finding)."],
    "C17": ["Processes are forked from the check; their output is captured in files."],
    "C20": ["Allocations beyond 256 MB return NULL."],
}
