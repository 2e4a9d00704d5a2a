"""What each property's check runs; see check.py and DESIGN.md."""

PLAN = {}


def S(name, spec, **kw):
    return dict(name=name, spec=spec, cfg=kw.pop("cfg", "Trace"), **kw)


def MC(spec, cfg=None, **kw):
    return dict(spec=spec, cfg=cfg or spec + "MC", **kw)


PLAN["C05"] = dict(
    driver="c05",
    mc=[MC("Gadget"), MC("Gadget", "GadgetMCdeep", thorough=True, workers=8)],
    sections=[S(n, "GadgetTrace") for n in ("small", "small2", "lvl1", "lvl2", "custom", "transforms")],
)

PLAN["C01"] = dict(
    driver="c01",
    mc=[MC("EncDec"), MC("EncDec", "EncDecMCdeep", thorough=True, workers=8)],
    sections=[S(n, "EncDecTrace") for n in ("lvl0", "lvl0b", "lvl1", "lvl2", "lvl3", "gadget1a", "gadget1b", "gadget2a", "gadget2b", "keys1", "keys2")],
)

RINGMC = [MC("RingModel"), MC("RingModel", "RingModel4MC"), MC("RingModel", "RingModelMCdeep", thorough=True, workers=8)]

PLAN["C06"] = dict(
    driver="c06",
    mc=RINGMC,
    sections=[S(n, "RingTrace") for n in ("small", "mono1", "mono2", "auto", "prod1", "prod2", "transforms", "rescale")],
)

PLAN["C08"] = dict(
    driver="c08",
    mc=RINGMC,
    sections=[S(n, "RingTrace") for n in ("small", "lvl1", "lvl2", "phases")],
)

PLAN["C04"] = dict(
    driver="c04",
    mc=[MC("GadgetProdModel", "GadgetProdMC"), MC("GadgetProdModel", "GadgetProdMCdeep", thorough=True, workers=8)],
    sections=[S(n, "GadgetProdTrace") for n in ("ext1", "ext2", "ntt1", "ntt2", "cmux1", "cmux2", "rot1", "rot2", "one")],
)

PLAN["C03"] = dict(
    driver="c03",
    mc=[MC("BlindRot"), MC("BlindRot", "BlindRot2MC"), MC("BlindRotModel", "BlindRotMCdeep", thorough=True, workers=8)],
    sections=[S(n, "BlindRotTrace") for n in ("ntt01", "ntt02", "raintt", "fft02", "fft01", "ffth1", "ffth2", "many", "enc", "gate")],
)

PLAN["C07"] = dict(
    driver="c07",
    mc=[MC("KeySwitch"), MC("KeySwitch", "KeySwitch2MC"), MC("KeySwitch", "KeySwitch3MC"),
        MC("KeySwitch", "KeySwitchMCdeep", thorough=True, workers=8), MC("KeySwitch", "KeySwitch2MCdeep", thorough=True, workers=8)],
    sections=[S(n, "KeySwitchTrace") for n in ("lvl31", "lvl22", "priv22", "lvl10", "lvl1h", "lvl11", "lvl20", "lvl2h", "lvl21",
                                               "subset", "toring", "priv11", "priv21", "subpriv21", "tiny", "tinyring")],
)

PLAN["C02"] = dict(
    driver="c02",
    mc=[MC("Circuit"), MC("Circuit", "Circuit3MC"), MC("Circuit", "CircuitMCdeep", thorough=True)],
    gen={"progs": dict(spec="CircuitGen", num={"quick": 9, "thorough": 60}, depth={"quick": 50, "thorough": 80})},
    sections=[S(n, "CircuitTrace") for n in ("table2", "table1", "table0", "tableh")]
    + [S(f"prog{i}", "CircuitTrace", gen="progs") for i in range(3)] + [S("deep", "CircuitTrace")],
    par=8,
)

PLAN["C09"] = dict(
    driver="c09",
    mc=[MC("CircBoot"), MC("CircBoot", "CircBoot2MC"), MC("CircBoot", "CircBootMCdeep", thorough=True, workers=8)],
    sections=[S(n, "CircBootTrace", omp=8) for n in ("lvl2", "lvl1", "tree1", "sub")],
)

PLAN["C10"] = dict(
    driver="c10",
    mc=[MC("Memory"), MC("Memory", "Memory2MC"), MC("Memory", "MemoryMCdeep", thorough=True, workers=8)],
    gen={"hist": dict(spec="MemoryGen", num={"quick": 80, "thorough": 300}, depth={"quick": 8, "thorough": 30})},
    sections=[S(n, "MemoryTrace", gen="hist") for n in ("ram1", "ram2", "wide", "rom", "romcb", "full")],
)

PLAN["C11"] = dict(
    driver="c11",
    mc=[MC("Packing"), MC("Packing", "Packing2MC"), MC("Packing", "PackingMCdeep", thorough=True, workers=8)],
    sections=[S(n, "PackingTrace") for n in ("auto1", "auto2", "annihilate1", "annihilate2", "pack1a", "pack1b", "pack2")],
)

PLAN["C12"] = dict(
    driver="c12",
    mc=[MC("Digits"), MC("Digits", "Digits2MC"), MC("Digits", "DigitsMCdeep", thorough=True, workers=8)],
    sections=[S(n, "DigitsTrace", omp=4) for n in ("wide", "mid", "low")],
)

PLAN["C14"] = dict(
    driver="c14",
    mc=[MC("Params"), MC("Params", "ParamsMCdeep", thorough=True, workers=8)],
    sections=[S(n, "ParamsTrace") for n in ("single", "history")],
)

PLAN["C13"] = dict(
    driver="c13",
    mc=[MC("Archive"), MC("Archive", "ArchiveMCdeep", thorough=True, workers=8)],
    gen={"hist": dict(spec="ArchiveGen", num={"quick": 60, "thorough": 400}, depth={"quick": 14, "thorough": 30})},
    sections=[S("heavy", "ArchiveTrace"), S("sets", "ArchiveTrace"), S("keys", "ArchiveTrace", gen="hist"), S("packets", "ArchiveTrace", gen="hist")]
    + [S(n, "ArchiveTrace") for n in ("secret", "alone", "torn", "flow")],
    par=5,
)

PLAN["C15"] = dict(
    driver="c15",
    mc=[MC("EvalKeys"), MC("EvalKeys", "EvalKeysMCdeep", thorough=True, workers=8)],
    gen={"hist": dict(spec="EvalKeysGen", num={"quick": 4, "thorough": 48}, depth={"quick": 14, "thorough": 24})},
    sections=[S("wide", "EvalKeysTrace", omp=4), S("private", "EvalKeysTrace", omp=4)] + [S(f"hist{i}", "EvalKeysTrace", gen="hist", omp=2) for i in range(4)]
    + [S(n, "EvalKeysTrace") for n in ("switch", "boot", "conv")],
    par=8,
)

PLAN["C16"] = dict(
    driver="c16",
    mc=[MC("KeyGen"), MC("KeyGen", "KeyGenMCdeep", thorough=True, workers=8)],
    gen={"hist": dict(spec="KeyGenGen", num={"quick": 60, "thorough": 300}, depth={"quick": 20, "thorough": 40})},
    sections=[S("freq", "KeyGenTrace"), S("threads", "KeyGenTrace"), S("hist", "KeyGenTrace", gen="hist"), S("procs", "KeyGenTrace"), S("overlap", "KeyGenTrace")],
)

PLAN["C17"] = dict(
    driver="c17",
    mc=[MC("Streams"), MC("Streams", "StreamsMCdeep", thorough=True, workers=8)],
    gen={"hist": dict(spec="StreamsGen", num={"quick": 10, "thorough": 80}, depth={"quick": 12, "thorough": 30})},
    sections=[S("private", "StreamsTrace", heap="5g"), S("switch", "StreamsTrace", heap="5g"), S("boot", "StreamsTrace", heap="4g"), S("domain", "StreamsTrace", heap="4g"), S("rings", "StreamsTrace", heap="5g"), S("burst", "StreamsTrace", omp=8), S("single", "StreamsTrace", omp=8), S("hist", "StreamsTrace", gen="hist", omp=4), S("wide", "StreamsTrace", thorough=True, heap="6g")],
    par=6,
)

PLAN["C19"] = dict(
    driver="c19",
    mc=[MC("Bfv", workers=4), MC("Bfv", "BfvMCdeep", thorough=True, workers=8)],
    gen={"hist": dict(spec="BfvGen", num={"quick": 8, "thorough": 80}, depth={"quick": 14, "thorough": 20})},
    sections=[S("hist0", "BfvTrace", gen="hist"), S("hist1", "BfvTrace", gen="hist"), S("ends", "BfvTrace"), S("single", "BfvTrace", omp=8)],
)

PLAN["C18"] = dict(
    driver="c18",
    mc=[MC("Modular", workers=4), MC("Ntt", workers=2), MC("Ntt", "Ntt8MC", workers=2), MC("WordsMC", "WordsMC"),
        MC("Modular", "ModularMCdeep", thorough=True, workers=8), MC("Ntt", "NttMCdeep", thorough=True, workers=8)],
    sections=[S(n, "ModularTrace") for n in ("addsub", "mul", "shift", "ntt", "nttbig", "switch", "mont", "rntt", "rnttbig")],
)

PLAN["C20"] = dict(
    driver="c20",
    mc=[MC("Conc"), MC("Conc", "ConcKeysMC"), MC("Conc", "Conc3MC", workers=4), MC("Conc", "ConcMCdeep", thorough=True, workers=8)],
    gen={"prog": dict(spec="ConcGen", num={"quick": 4, "thorough": 40}, depth={"quick": 60, "thorough": 120})},
    sections=[S(n, "ConcTrace", omp=2) for n in ("lockgate", "lockgate2", "lockhalf", "locktwo", "locktwohalf", "lockntt", "lockiks", "lockpriv", "lockring", "lockauto", "locklight", "lockcb", "lockcb2", "cold0", "cold1", "keys0", "keys1")]
    + [S(f"mixed{i}", "ConcTrace", gen="prog", omp=2) for i in range(4)],
    par=3,
)

BUILDS = dict(conc=["-DUSE_CONCRETE"], rs=["-DUSE_TFHE_RS"], tern=["-DUSE_TERNARY"], ternc=["-DUSE_TERNARY", "-DUSE_TERNARY_CMUX"],
              bundle=["-DUSE_KEY_BUNDLE"], opt=["-DUSE_OPTIMAL_DECOMPOSITION"], norand=["-UUSE_RANDEN"], fftw=["-DUSE_FFTW3"])
PLAN["C21"] = dict(
    driver="c21",
    mc=[MC("Config", f"Config_{v}MC") for v in ("binary", "ternary", "cmux", "bundle")]
    + [MC("Config", "ConfigMCdeep", thorough=True, workers=4), MC("Config", "ConfigMC3deep", thorough=True, workers=4)],
    gen={"prog": dict(spec="ConfigGen", num={"quick": 2, "thorough": 12}, depth={"quick": 60, "thorough": 120})},
    sections=[S(f"{b}_{n}", "ConfigTrace", run=n, flags=f, **(dict(gen="prog") if n == "gates" else {}))
              for n in ("circuit", "rot2", "rot1", "basic", "gates", "threads") for b, f in BUILDS.items() if (b, n) != ("rs", "circuit")]
    + [S(f"opt_digits_{n}", "GadgetTrace", run=n, driver="c05", flags=BUILDS["opt"]) for n in ("small", "lvl1", "lvl2", "custom")]
    + [S(f"fftw_ring_{n}", "RingTrace", run=n, driver="c06", flags=BUILDS["fftw"]) for n in ("prod1", "prod2", "transforms", "rescale")],
    par=4,
)

NOTES = {
    "C01": "Model exhaustive over a small torus (all messages, masks, noises); on the real library every level and form is exercised with several secret keys in one process on all representable messages/slots sampled, phases recomputed in the specification.",
    "C02": "Model exhaustive over circuits of any depth on a small torus; on the real library the full table of gates x level orders x inputs with noise at the admissible extremes, plus TLC-generated programs with aliasing.",
    "C03": "Model exhaustive for small rings; on the real library the rotation amount and every coefficient of the result are computed in the specification for sampled inputs including rounding corners.",
    "C04": "Model exhaustive for small gadgets; on the real library sampled and extreme operands at all compiled levels, phases and noise bounds judged in the specification.",
    "C05": "Exhaustive for small words and all custom parameter shapes; boundary and random words at the real levels.",
    "C06": "Exhaustive for small rings; at the real degrees all monomials/automorphism indices of the tier and sampled polynomials.",
    "C07": "Exhaustive for small words; noiseless switches of the real code at tiny dimensions exact, real levels within seven standard deviations.",
    "C08": "All extraction indices at the real degrees; exhaustive for small rings.",
    "C09": "Model exhaustive on a small torus (all phases, keys, noises, multiplexer inputs); on the real library every variant and level combination for both bits, every coefficient of every row.",
    "C10": "Model exhaustive over all histories of the multiplexer network for small memories; on the real library TLC-generated histories, every coefficient of every cell after every write.",
    "C11": "Model exhaustive for small rings (all phases, keys, masks); on the real library many automorphism indices, all list sizes near powers of two, every coefficient of every result.",
    "C12": "Model exhaustive over all messages and noise signs for small words; on the real library every digit of random and corner messages (borrows, runs) for bases 2 to 16 and up to 64 digits.",
    "C14": "Every recorded field changed alone in six ways, and random histories of changes, exchanges, comparisons and archives; model exhaustive for small records.",
    "C13": "Every slot alone and in random sets, TLC-generated histories of puts, drops, copies, saves and loads into objects that already hold something, every ciphertext kind alone, archives cut short at every kind of place (must be refused), and client/server runs against the same run without archives.",
    "C15": "TLC-generated histories of insertions, conversions, copies and drops with all slots of all objects observed after every step; rows of every kind of key decrypted and judged in the specification.",
    "C16": "Model exhaustive over interleavings of key-generating threads; on the real library value sets, frequencies, contingency tables between levels, keys, shifts and neighbours, keys of several threads and processes, and TLC-generated histories of generation, copies and lookups.",
    "C17": "Model exhaustive over interleavings of threads with per-thread streams (and shown to fail with a shared one); on the real library no mask or noise window repeats over all kinds of ciphertexts and keys, bursts of concurrent encryptions and TLC-generated histories, and masks and noise have the right distribution.",
    "C19": "Model exhaustive over a small torus and ring (keys, plaintexts, masks at the ends of the word, noise); on the real library TLC-generated programs of encryptions, sums and products and crafted operands, every coefficient of every product computed in the specification, before and after relinearisation.",
    "C18": "Reductions modelled word for word and exhaustive over all operands for half words of 2 and 3 bits (4 in the thorough tier) and three Montgomery primes; transforms modelled stage by stage over small primes; on the real library boundary and random operands, every shift amount, and transforms of sizes 16 to 4096 against integer arithmetic on limbs.",
    "C20": "Model exhaustive over interleavings of two and three threads with per-thread scratch and tables (and shown to fail for seven unsafe designs); on the real library every kind of operation by eight threads in lock step and by TLC-generated programs of four threads, alone, together, on fresh threads, in fresh processes and with two key sets in one process, result digests equal in the specification, with the key, the operands and all other registers unchanged.",
    "C21": "Model of the four rotation forms (plain, two-step ternary, one-step ternary, bundled) and of the optimal decomposition exhaustive for small rings and words; on the real library built with each of eight options, sampled and corner inputs for encryption, decomposition, products, rotations, key switches and circuit bootstrapping, TLC-generated gate programs and concurrent threads, all judged in the specification against each option's own parameters.",
}
