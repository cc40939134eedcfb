"""Writes MANIFEST.json (claimed: every property with a check; the rest under not_applicable)."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vt.checks import TABLE   # noqa: E402

TECH = {
    "S01": ("TLA+ trace validation (Conform) of real round trips + exhaustive symbolic KEM model (KemSystem) replayed on the code",
            "TLC recomputes every key generation, encapsulation and decapsulation from the TLA+ definition; the symbolic model is exhaustive within its bounds and its behaviours are replayed. Trusts TLC, the Java evaluation of the primitives (compared with the pure definitions by FastCheck) and the sampled inputs."),
    "S02": ("TLA+ trace validation of tampered decapsulations, every byte position, + symbolic model KemSystem replayed",
            "Every byte position of a ciphertext, cancelling and wrapping changes, foreign/random/wrong-coin ciphertexts on all 25 configurations, judged by the TLA+ definition."),
    "S03": ("TLA+ trace validation of decapsulation on crafted secret keys and ciphertexts",
            "Exact recomputation by the TLA+ definition on structured and random byte strings; cross-implementation comparison at volume. Sampled inputs."),
    "S04": ("TLA+ trace validation of encapsulation on crafted public keys and scripted draws", "Exact recomputation by the TLA+ definition on structured and random public keys and draws. Sampled inputs."),
    "S05": ("TLA+ trace validation of key generation on scripted draws", "Exact recomputation of pk and sk by the TLA+ definition on structured and random draws. Sampled inputs."),
    "S06": ("TLA+ model KemSystem with two implementations, behaviours replayed on all implementation pairs; trace validation", "All pairs of implementations of a parameter set, honest and tampered, plus bulk comparison."),
    "S07": ("TLA+ model of Toom-Cook/Karatsuba over 16-bit words (Toom, exhaustive over extreme limbs), operands replayed on the code; trace validation against schoolbook multiplication",
            "Exhaustive at limb size one over five extreme limb values; real products on model operands, structured and random operands of all 25 configurations judged by TLC."),
    "S08": ("TLA+ model of bit-string packing (Packing, exhaustive over unit strings per width) replayed on the code; trace validation",
            "Unit strings of every width in every position group plus structured and random vectors, judged by the TLA+ definition; functions that cannot be called on their own are covered through the KEM interface."),
    "S09": ("TLA+ model of the sampler, exhaustive over all noise values (Sampler), replayed; trace validation of sampled secrets",
            "All values of a coefficient's noise bits in several positions, structured and random noise strings and seeds; distribution law checked exhaustively on the model."),
    "S10": ("TLA+ sponge buffering model (SpongeModel, exhaustive over lengths) replayed; trace validation against FIPS 202 in TLA+",
            "All lengths around the block boundaries and all small lengths, in-place use, prefix property, four-way lanes."),
    "S11": ("TLA+ padding model (SpongeModel) replayed; trace validation against FIPS 180-4 in TLA+", "All lengths up to 700 bytes (quick) and selected longer ones, in-place use, and the KEM of all 90s configurations."),
    "S12": ("TLA+ model of batched split counters (CtrBatch, exhaustive at small width), starts replayed; trace validation against AES-CTR in TLA+",
            "Carry starts of the model at 64-bit width, all small lengths, context interleavings."),
    "S13": ("TLA+ symbolic generator model (DrbgModel) with histories replayed; trace validation against CTR-DRBG in TLA+", "Histories of the model, every carry position of the counter (reached through chosen seeds), long and empty requests."),
    "S14": ("TLA+ buffer-machine model (SeedExp, exhaustive for short histories) replayed; trace validation against the stream definition", "Histories of the model, byte-exact budget boundaries, several contexts, budgets at and above 2^32, counter carries over two bytes."),
    "S16": ("TLA+ memory layout model (Layout, exhaustive) replayed with every byte outside the outputs compared; trace validation incl. address-sanitized executions",
            "Layouts of the model, guard pages on either side, all alignments, different previous contents; plus executions under AddressSanitizer as trace events."),
    "S15": ("TLA+ model Lanes (exhaustive), all 256 lane mixtures replayed on the four-way code; trace validation", "All mixtures of the model on real code, plus random lane contents, judged by the TLA+ definition per lane."),
    "S23": ("TLA+ model of law computations (Laws, LawModel: double-and-add and tail loops against definitions) with histories replayed on the scripts; trace validation with exact rational weights (LawConform)",
            "Histories of the model plus structured and random laws, weights compared exactly as multiples of the common denominator. Laws of up to 81 values."),
    "S18": ("TLA+ interleaving model of decapsulating threads (Threads, with a shared-scratch mutant TLC must refute); its schedules executed on the code with preemption at writes to static storage; trace validation of every key",
            "Controlled schedules preempt at (sampled) writes to static storage, including in a fresh process; free-running threads besides. Keys of the jobs judged by the TLA+ definition."),
    "S19": ("TLA+ self-composition model of leakage and taint monitoring (Leak, programs of any length, mutant refuted), bound to valgrind memcheck by its programs; noninterference trace validation of monitored and single-stepped runs of the code (LeakConform)",
            "Taint of every secret through keygen/enc/dec of all 25 configurations (accepting and rejecting), plus instruction-address traces compared over secrets in the project's own build."),
    "S17": ("TLA+ model KemSystem histories replayed; trace validation against a memoryless specification", "Histories drawn from the model and shuffled operation mixes, results compared with first-in-process results and the TLA+ definition."),
    "S20": ("TLA+ models of strided/accumulating multiplication (Strided) and in-place comparison (Compare) with mutants, their behaviours and KemSystem's replayed on the ARM machine code in an instruction-set interpreter; trace validation against the TLA+ definition",
            "The real C and assembly, compiled for the Cortex-M4 and interpreted (the interpreter is tested against the host compiler); every argument byte has access rights. 12 builds. Results recomputed by TLC and compared with the reference implementation. Sampled inputs."),
    "S21": ("TLA+ model of the streaming matrix generator (Stream, exhaustive, two mutants) with histories replayed; trace validation of the Cortex-M0 machine code against the TLA+ definition of its scheme, FIPS 202, SP 800-185 and packing",
            "The real C and assembly compiled for the Cortex-M0 and interpreted, with access rights per byte; its C part also under AddressSanitizer; the board's whole program in its 16 KB. Sampled inputs."),
    "S22": ("TLA+ model of generator hardware and driver (Prng, exhaustive, three mutants), histories replayed on the machine code over modelled registers; trace validation of every register access (PrngConform)",
            "All histories of the model within its bounds, every request length up to 160 (quick), hardware response times 0 to 7. Trusts the hardware model."),
    "S24": ("TLA+ self-composition model of leakage (Leak, mutant refuted), bound to the interpreter's observer by its programs; noninterference trace validation (LeakConform) of complete observations of the ARM machine code",
            "Every instruction address, load/store address and divider operand of keygen/enc/dec, compared over pairs of secrets with equal public data, 12 Cortex-M4 builds and the Cortex-M0 build. Sampled secrets."),
    "S25": ("TLA+ model of the search (Search, exhaustive over the answers of estimator and failure computation, four mutants), its answers realised by concrete laws and run on the script; trace validation with exact failure probabilities (SearchConform)",
            "All runs recomputed by TLC from the law of the secret; laws small enough for exact weights, plus the published parameter sets. The lattice estimator is a stand-in."),
    "S26": ("TLA+ models of the strided product (Strided), Toom-Cook limbs (Toom) and the widening pass (Align, exhaustive, three mutants); operands and programs replayed on the generators, their output assembled and interpreted; trace validation (Conform)",
            "Every unit operand and structured and random operands on five variants of the code; all model programs (sampled in the quick check) through the alignment tool."),
    "S27": ("TLA+ models of the timer, its exception and the driver under every interleaving of ticks and steps (SysTick, four mutants) of the transmit queue (Uart, three mutants) and of the stack measurement (StackMeter, three mutants); their behaviours replayed on the board's machine code in an emulator with time, exceptions and a serial port; trace validation (BoardConform)",
            "All positions of a wrap around stopping (a cycle apart, exceptions taken 0, 1, 2 and 4 steps late), durations of up to 255 wraps, all histories of the models (reports sampled), line speeds from 1 to 5000 cycles per character; durations between are sampled."),
    "S28": ("TLA+ model of four interleaved states, byte runs cut into partial and whole lanes, lane calls and absorb loops (FourWay, exhaustive at small size, six mutants), and of lanes kept as even and odd bits (Interleave, five mutants); histories at full size replayed on the four-way library and, for one state, on the machine code of the two Cortex-M0 libraries in an emulator; trace validation with the Keccak permutation of the specification (FourWayConform)",
            "All pairs of calls at 2 states of 3 lanes of 3 bytes; on the code 120 histories of 14 calls (quick), every start within a lane with every short length, every lane count. Data of loops reach at least as far as a round steps."),
    "S29": ("TLA+ model of the search for a secret by repeated reductions that may return any basis (Sanity, exhaustive at small size, five mutants), its behaviours replayed as what reduction returns to the script, run on a stand-in for Sage; trace validation of instances, bases (membership and determinant) and report (SanityConform)",
            "Sage and lattice reduction are a stand-in with exact arithmetic; dimensions up to 5 (thorough: 6); determinants are compared modulo three primes."),
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in TABLE and i in TECH:
        t, n = TECH[i]
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 vt/run.py " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 vt/run.py " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "python3 vt/setup.py", "checks": checks, "not_applicable": na,
     "notes": "TLA+ (TLC). See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
