#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that titles/anchors are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Encrypt then decrypt returns the plaintext, at every level and form",
  "For every security level and every ciphertext form the library offers (single sample, ring sample, gadget sample; bit, integer and vector interfaces), decrypting a ciphertext under the key that produced it returns exactly the encrypted plaintext, for every plaintext of that level's message space and every secret key. "
  "The phase of a fresh encryption is the encoded plaintext plus centred noise of the level's documented standard deviation, neither larger nor missing. "
  "Decryption depends only on the phase and picks the nearest encoded plaintext for every phase, not only for those close to an encoding.",
  ["inputs", "configurations"], "all plaintexts, all secret keys, all phases, all parameter levels and ciphertext forms",
  "The encryption tests draw a few random bits per level and only compare the decrypted sign; integer forms, level 3, vector interfaces, noise size and phases near decision boundaries are never examined.",
  ["include/tlwe.hpp", "include/trlwe.hpp", "include/trgsw.hpp", "include/utils.hpp", "src/tlwe.cpp", "src/trlwe.cpp", "src/trgsw.cpp"],
  [("tlweSymEncrypt / tlweSymIntEncrypt / tlweSymDecrypt / tlweSymIntDecrypt / bootsSym*", "include/tlwe.hpp"), ("trlweSymEncrypt* / trlwePhase / trlweSym*Decrypt", "include/trlwe.hpp"), ("trgswSymEncrypt, hgen", "include/trgsw.hpp"), ("ModularGaussian", "include/utils.hpp")],
  observe=["exact phases recomputed with the secret key by the harness", "plaintexts returned by the decryption functions"])

p("C02", "Every Boolean gate computes its truth table in circuits of any depth",
  "Each gate of the Boolean API (constants, NOT, COPY, NAND, NOR, XNOR, AND, OR, XOR, the four one-input-negated forms, MUX, NMUX and the multiplexer variants that stop before extraction or key switching), at every level it is offered for and in both bootstrap orders, returns an encryption of its truth-table value for all input bits. "
  "The noise of a bootstrapped gate's output does not depend on how deep the circuit before it is, so any composition of gates decrypts to what the same Boolean circuit computes. "
  "The result register may alias any operand, and operands other than the result are left unchanged.",
  ["programs", "inputs"], "all gate programs (sequences of gates over registers, aliasing included), all input bits, all admissible input noise",
  "gate.cpp evaluates each gate on a few independent random fresh inputs at one default level; it never chains gates, aliases registers, uses other levels, feeds noisy inputs or measures output noise.",
  ["include/gate.hpp", "src/gate.cpp", "include/gatebootstrapping.hpp", "include/keyswitch.hpp"],
  [("HomGate linear combination and offset", "include/gate.hpp"), ("HomMUX, HomMUXwoSE, HomMUXwoIKSandSE, ExtractSwitchAndHomMUX", "include/gate.hpp, src/gate.cpp"), ("GateBootstrapping", "include/gatebootstrapping.hpp")],
  state=[("register file", "one encrypted bit per register, its level and its noise class", "caller")],
  observe=["phase and decryption of every register after every gate"])

p("C03", "Programmable bootstrapping evaluates any lookup table on any phase",
  "Bootstrapping a sample with any test polynomial, plain or encrypted, returns that polynomial negacyclically rotated by the sample's phase, where the amount is the phase after every input coefficient is rounded to the rotation grid; the sample extracted at position zero is therefore the table entry selected by the input. "
  "This holds for every input phase, every test polynomial and every bootstrapping key pair offered, gives the same answer for all transform back ends, and the output noise is bounded independently of the input noise. "
  "The variant with several outputs evaluates all its tables in one rotation, each on the same input.",
  ["inputs", "configurations"], "all input samples, all test polynomials, all bootstrapping parameter pairs and transform back ends, all table counts",
  "The bootstrapping tests use a constant test polynomial, so a wrong rotation amount, direction or rounding that keeps the sign is invisible; encrypted tables and the several-output variant are only met inside circuit bootstrapping of one bit.",
  ["include/gatebootstrapping.hpp", "include/detwfa.hpp", "include/cloudkey.hpp", "src/gatebootstrapping.cpp", "src/detwfa.cpp"],
  [("BlindRotate (FFT, NTT, RAINTT, encrypted table)", "include/gatebootstrapping.hpp"), ("CMUX*withPolynomialMulByXaiMinusOne", "include/detwfa.hpp"), ("bkgen / bkfftgen / bknttgen / bkrainttgen", "include/cloudkey.hpp")],
  observe=["all coefficients of the rotated accumulator's phase"])

p("C04", "External product and CMUX multiply and select homomorphically",
  "The external product of a gadget ciphertext of a small polynomial with any ring ciphertext has as phase the negacyclic product of the two phases, up to the gadget rounding and the keys' noise, for every transform back end. "
  "A multiplexer controlled by an encrypted bit returns its first data operand when the bit is one and its second when it is zero, for any data, and the rotating form multiplies by the chosen monomial exactly when the bit is one. "
  "In-place use that the library itself relies on gives the same result as out-of-place use, and the gadget encryption of one acts as the identity.",
  ["inputs", "configurations"], "all ring ciphertexts and phases, all small plaintext polynomials, both control bits, all monomial exponents, all back ends and levels with such products",
  "The tests multiply by the constant one (or a bit), compare signs only, and run CMUX at one level; wrong polynomial products, precision loss and the monomial form with ternary keys are not observed.",
  ["include/trgsw.hpp", "include/detwfa.hpp", "include/mulfft.hpp", "src/trgsw.cpp", "src/detwfa.cpp"],
  [("trgswfft/ntt/raintt/half ExternalProduct", "include/trgsw.hpp"), ("CMUXFFT and rotating CMUX", "include/detwfa.hpp"), ("TRGSWFFTOneGen", "include/detwfa.hpp")],
  observe=["phase of the result against the product computed by the specification"])

p("C05", "Gadget decomposition is bounded and recomposes within its precision",
  "For every torus value the balanced digit decomposition yields digits inside the symmetric digit range, and the digits recombined with the gadget weights differ from the value by at most half of the last weight. "
  "This holds coefficient by coefficient for every value of the word, wrap-around at both ends of the range included, and for every level's digit count and base.",
  ["inputs", "configurations"], "all values of the torus word, all digit counts and bases",
  "No test calls the decomposition; it is only exercised through products whose sign survives a lost digit or a wrong rounding.",
  ["include/trgsw.hpp", "include/params.hpp"],
  [("offsetgen, Decomposition, hgen", "include/trgsw.hpp")],
  observe=["digits returned for given words"])

p("C06", "Polynomial operations implement the negacyclic ring exactly",
  "Multiplication by a monomial (and by a monomial minus one), the automorphisms, and every polynomial product the library offers compute in the ring of polynomials modulo X^N+1 over the torus word: monomial and automorphism maps are exact for every exponent of their domain, and every product algorithm (schoolbook, floating-transform based, number-theoretic-transform based, and the rescaling products of unsigned integers) returns the negacyclic product of a torus polynomial and a small integer polynomial, exactly where integers are exact and within the rounding of the transform otherwise. "
  "Forward and inverse transforms (floating, number-theoretic, and Nussbaumer up to its factor N) are mutually inverse on every polynomial of their domain.",
  ["inputs", "configurations"], "all polynomials, all exponents 0..2N, all odd automorphism indices, all product algorithms and ring sizes",
  "Tests multiply a few random polynomials and check the automorphism for one index; exponents at the ends of the range, sign handling and wrap-around are left to chance.",
  ["include/utils.hpp", "include/mulfft.hpp", "include/nussbaumer.hpp", "include/bfv++.hpp", "thirdparties/spqlios/fft_processor_spqlios.cpp"],
  [("PolynomialMulByXai, PolynomialMulByXaiMinusOne, Automorphism", "include/utils.hpp"), ("PolyMul*, Twist*FFT, MulInFD, FMAInFD", "include/mulfft.hpp"), ("Nussbaumer", "include/nussbaumer.hpp")],
  observe=["coefficients returned"])

p("C07", "Key switching preserves the phase under the new key",
  "Every key switch (identity, several at once, subset key, sample to ring sample, private functional, subset private) maps a sample under the source key to one under the target key whose phase is the source phase (times the private polynomial for the functional ones), up to the rounding of the digits and the switching key's noise. "
  "It holds for every input sample including coefficients at the ends of the word, for every offered pair of levels whatever their word sizes, and switching several samples at once gives exactly what switching them one by one gives.",
  ["inputs", "configurations"], "all input samples, all keys, all level pairs, all digit counts and bases",
  "iks.cpp switches random encryptions of bits for one level pair and looks at the sign; most pairs, the grouped, subset and private variants and the amount of added noise are untested.",
  ["include/keyswitch.hpp", "include/cloudkey.hpp", "src/keyswitch.cpp"],
  [("IdentityKeySwitch, CatIdentityKeySwitch, SubsetIdentityKeySwitch, TLWE2TRLWEIKS, PrivKeySwitch, SubsetPrivKeySwitch", "include/keyswitch.hpp"), ("ikskgen, subikskgen, privkskgen, subprivkskgen, tlwe2trlweikskgen", "include/cloudkey.hpp")],
  observe=["phase before and after"])

p("C08", "Sample extraction reads and writes the named coefficient",
  "Extracting position i of a ring ciphertext gives a sample whose phase under the same key is exactly coefficient i of the ring ciphertext's phase, for every position. "
  "The inverse embedding puts the sample's phase at exactly the requested coefficient, and extracting it back at the same position returns the sample itself.",
  ["inputs"], "all positions, all ring ciphertexts, all keys, all ring levels",
  "Almost every test extracts position zero, where the sign and index logic is degenerate.",
  ["include/trlwe.hpp", "src/trlwe.cpp"],
  [("SampleExtractIndex, InvSampleExtractIndex", "include/trlwe.hpp")],
  observe=["extracted sample coefficients and phases"])

p("C09", "Circuit bootstrapping turns an encrypted bit into its gadget form",
  "Circuit bootstrapping of an encrypted bit, in every variant offered (with and without initial key switch, plain or transform-domain output, subset keys, both private-switch targets), returns a gadget ciphertext of that bit whose rows all have the right phase up to bounded noise, for both bit values. "
  "The inverting variants return the gadget ciphertext of the complement, and the combined variant returns both. "
  "The result controls multiplexers correctly, including nested ones.",
  ["inputs", "configurations"], "both bits, all admissible input noise, all variants and level combinations",
  "circuitbootstrapping.cpp only encrypts ones and the inverse test only zeros, each with one level combination; a variant wrong for the other value passes.",
  ["include/circuitbootstrapping.hpp", "src/circuitbootstrapping.cpp", "include/cloudkey.hpp", "include/keyswitch.hpp"],
  [("CBtestvector, CircuitBootstrapping*", "include/circuitbootstrapping.hpp"), ("emplaceprivksk4cb, emplacesubprivksk4cb", "include/cloudkey.hpp")],
  observe=["phase of every row of the gadget ciphertext", "result of multiplexers it controls"])

p("C10", "Encrypted memory behaves as plain memory over any access history",
  "Reading encrypted memory (RAM, and ROM packed vertically and horizontally) at an encrypted address returns the content of exactly that cell, for every address and every content. "
  "Writing at an encrypted address replaces exactly that cell and leaves every other cell's content as it was, so after any history of reads and writes each read returns the latest value written to its address, or the initial one.",
  ["histories", "inputs"], "all sequences of reads and writes, all addresses, all contents, all address widths and packings",
  "ram.cpp and rom.cpp do one access at one random address per run and look only at the addressed cell; unaddressed cells, other addresses and longer histories are not looked at.",
  ["include/cmuxmem.hpp", "include/detwfa.hpp", "include/gate.hpp"],
  [("RAMUX, RAMwriteBar, UROMUX, LROMUX", "include/cmuxmem.hpp")],
  state=[("encrypted memory", "one ring ciphertext per cell", "caller")],
  observe=["decryption of every cell after every access"])

p("C11", "Ring automorphisms, annihilation and packing place every coefficient",
  "Evaluating an automorphism on a ring ciphertext gives a ciphertext of the automorphism of its phase; annihilation keeps the constant coefficient and clears all others. "
  "Packing a list of samples, of any length up to the ring degree, gives one ring ciphertext whose phase holds the samples' phases at the positions of the packing order and nothing elsewhere.",
  ["inputs", "configurations"], "all list lengths 1..N, all phases, all odd automorphism indices, both packings",
  "The packing tests use sixteen samples, the automorphism test one index, and none looks at the coefficients that must be cleared.",
  ["include/keyswitch.hpp", "include/cloudkey.hpp", "include/utils.hpp"],
  [("EvalAuto, AnnihilateKeySwitching, PackLWEs, TLWE2TRLWEChengsPacking, PackLWEsLSB, TLWE2TRLWEPacking", "include/keyswitch.hpp"), ("evalautokeygen, annihilatekeygen", "include/cloudkey.hpp")],
  observe=["all coefficients of the packed phase"])

p("C12", "Homomorphic digit decomposition returns the digits of the message",
  "Homomorphically decomposing an encryption of an integer returns, digit by digit from the least significant, encryptions of the integer's digits in the chosen base, for every integer of the message space. "
  "Each digit's phase is the digit in its encoding, off by at most a quarter of the encoding's step (what the lower digits leave after correction) plus bounded noise, so that every digit decrypts correctly whatever the other digits are.",
  ["inputs"], "all integers of the message space (carry and borrow patterns included), all keys",
  "homdecomp.cpp decomposes a few random integers and the digit boundaries where a borrow ripples are hit only by chance.",
  ["include/homdecomp.hpp", "include/keyswitch.hpp", "include/gatebootstrapping.hpp"],
  [("HomDecomp, subtractpolygen", "include/homdecomp.hpp")],
  observe=["phase of every digit"])

p("C13", "Serialization is lossless for keys and ciphertexts",
  "Writing any key set, secret key, evaluation key in any state of completeness, or packet of ciphertexts to a portable archive and reading it back gives an object equal to the original in every component, absent components staying absent. "
  "A client and a server that exchange keys and ciphertexts only through archives therefore compute what a single process computes, over any sequence of saves, loads and operations. "
  "Serializing the same object twice gives identical bytes, and an archive that was cut short is refused with an exception, never read as a complete object.",
  ["histories", "configurations"], "all subsets of keys present, all packet shapes, all save/load/operate histories",
  "cereal.cpp writes archives and reads them back without comparing the evaluation key's contents, and no test covers packets or most key types.",
  ["include/cloudkey.hpp", "include/io-packet.hpp", "include/key.hpp", "include/lweParams.hpp", "include/INTorus.hpp", "include/params.hpp"],
  [("EvalKey::serialize", "include/cloudkey.hpp"), ("IOpacket::serialize", "include/io-packet.hpp"), ("SecretKey::serialize", "include/key.hpp"), ("lweParams::serialize", "include/lweParams.hpp")],
  state=[("archives", "byte strings written so far", "caller")],
  observe=["component-wise equality after load", "gate results computed with loaded objects"])

p("C14", "Parameter sets compare equal exactly when all recorded fields agree",
  "The parameter record carried by keys describes the build's parameters; two records compare equal exactly when every dimension, decomposition, key-switching and noise field they record agrees. "
  "A record survives serialization unchanged, and changing any single recorded field is detected by comparison, also after a round trip through an archive.",
  ["configurations", "histories"], "all records and all single- and multi-field differences, before and after archiving",
  "No test compares parameter records or archives one.",
  ["include/lweParams.hpp", "include/key.hpp", "include/cloudkey.hpp"],
  [("lweParams and the portable level records: constructor, operator==, serialize", "include/lweParams.hpp")],
  observe=["comparison results", "archived bytes"])

p("C15", "The evaluation key hands out exactly the key that was put in",
  "An evaluation key is a set of independent slots, one per key kind, level pair and, for private keys, name: after any history of insertions, requesting a key returns the one last inserted in that slot, generated for that level pair from that secret key. "
  "Inserting one key never changes another, copies share contents, and converting a bootstrapping key to a transform-domain form fills only the slot of the same level pair with the transform of exactly that key. "
  "The private keys used by circuit bootstrapping encode the negated secret polynomials and the constant one under their documented names.",
  ["histories", "configurations"], "all histories of insertions, replacements, conversions and requests over all slots",
  "Tests insert the one or two keys they need and use them; conversions, most level pairs, replacement and cross-slot interference are not looked at.",
  ["include/cloudkey.hpp", "src/cloudkey.cpp"],
  [("EvalKey emplace*/get*", "include/cloudkey.hpp")],
  state=[("slots", "shared pointers and named maps", "EvalKey")],
  observe=["identity and decrypted content of the key in every slot after every operation"])

p("C16", "Secret keys are fresh and fill the documented range at every level",
  "A newly generated secret key has, at every level, independent coefficients drawn uniformly from that level's documented value set, every value of the set and no other occurring. "
  "Two generated keys, and the keys of two levels of one secret key, are unrelated, and looking up a level returns that level's coefficients.",
  ["inputs", "histories"], "all generated keys, all levels, all coefficients",
  "No test looks at a secret key's coefficients.",
  ["src/key.cpp", "include/key.hpp", "include/params/128bit.hpp"],
  [("lweKey::lweKey, lweKey::get", "src/key.cpp")],
  observe=["coefficients of generated keys"])

p("C17", "Every encryption uses fresh uniform masks and fresh noise",
  "Each encryption, including every row of every generated key, draws its mask uniformly over the whole torus word and its noise from the level's distribution, independently of every other encryption. "
  "No mask or noise sequence is ever repeated within a process, across calls, objects, key rows, levels or threads, whatever the schedule of the threads that encrypt.",
  ["histories", "schedules"], "all sequences and all thread interleavings of encryptions and key generations",
  "A repeated or biased mask does not affect any decrypted value, so no functional test can notice it.",
  ["include/utils.hpp", "include/tlwe.hpp", "include/trlwe.hpp", "include/trgsw.hpp", "include/cloudkey.hpp"],
  [("thread-local generator seeding, ModularGaussian", "include/utils.hpp"), ("mask sampling", "include/tlwe.hpp, include/trlwe.hpp")],
  observe=["masks and noises of all produced ciphertexts, per thread"])

p("C18", "Modular arithmetic and number-theoretic transforms are exact",
  "Arithmetic in the 64-bit prime field and in the small-prime Montgomery form agrees with arithmetic on integers modulo the prime for every pair of operands, returning canonical representatives where documented. "
  "The number-theoretic transforms invert each other and turn negacyclic convolution into pointwise products, and conversion between torus words and residues rounds to nearest.",
  ["inputs"], "all operand pairs, all shift amounts and exponents, all polynomials",
  "Random operands practically never reach the carry and canonicalisation corners of the reduction.",
  ["include/INTorus.hpp", "include/cuhe++.hpp", "include/raintt.hpp", "include/mulfft.hpp"],
  [("INTorus operators", "include/INTorus.hpp"), ("NTT/INTT, TwistNTT/TwistINTT", "include/cuhe++.hpp"), ("AddMod, SubMod, MulREDC/SREDC, NTT, TwistNTT", "include/raintt.hpp")],
  observe=["results compared with integer arithmetic in the specification"])

p("C19", "Ciphertext multiplication multiplies the plaintexts",
  "Multiplying two ring ciphertexts of integer polynomials gives, before and after relinearisation, a ciphertext of the negacyclic product of the plaintexts modulo the plaintext modulus, for all plaintexts. "
  "Multiplying two single samples gives a sample of the product of their integers, and relinearisation changes the phase only by bounded noise.",
  ["inputs"], "all plaintext polynomials and integers of the message space",
  "trlwemult.cpp multiplies a few random polynomials; tlwemult.cpp checks almost nothing; extreme plaintexts and noise are not looked at.",
  ["include/bfv++.hpp", "src/bfv.cpp", "include/cloudkey.hpp", "include/mulfft.hpp"],
  [("TRLWEMult*, Relinearization, TLWEMult", "include/bfv++.hpp"), ("relinKeygen", "include/cloudkey.hpp")],
  observe=["phase and decryption of the product"])

p("C20", "Concurrent evaluation equals sequential evaluation",
  "Any number of threads may evaluate homomorphic operations at once with the same shared evaluation key; every operation's result depends only on its inputs and the key, so it is bit for bit the result of running it alone. "
  "Evaluation never changes the key or its input operands, and repeating an operation on the same inputs gives the same ciphertext.",
  ["schedules", "histories"], "all interleavings of any number of threads evaluating any operations, and all repetitions",
  "The tests evaluate from one thread, apart from a few parallel loops whose results are only checked for sign.",
  ["include/mulfft.hpp", "thirdparties/spqlios/fft_processor_spqlios.cpp", "include/gatebootstrapping.hpp", "include/homdecomp.hpp", "include/utils.hpp"],
  [("thread-local transform processors and scratch buffers", "include/mulfft.hpp, thirdparties/spqlios/fft_processor_spqlios.cpp"), ("const evaluation key", "include/cloudkey.hpp")],
  observe=["digests of results, inputs and keys per thread and per repetition"])

p("C21", "Every build option computes the same functions under its parameters",
  "Each build option the library offers for its arithmetic or parameters (other parameter sets, ternary keys with either rotation form, key bundling, the optimal decomposition, the FFTW transforms, the system random source) is only another way to compute the same functions: under each of them encryption and decryption invert each other, a blind rotation turns any table, plain or encrypted, by the rounded phase of its input, external products, multiplexers and key switches multiply, select and move samples, circuit bootstrapping yields gadget ciphertexts of the bit, and every gate program computes its Boolean circuit, within the noise of that option's parameters. "
  "Keys have the value range of their level's distribution, and threads may evaluate at the same time.",
  ["configurations", "inputs", "programs"], "all build options that compile here, all inputs, tables and gate programs under each of them",
  "The test suite is built in one configuration only; code behind the other options is not even compiled by it.",
  ["include/params.hpp", "include/params/concrete.hpp", "include/params/tfhe-rs.hpp", "include/params/ternary.hpp", "include/gatebootstrapping.hpp", "include/keybundle.hpp", "include/detwfa.hpp", "include/trgsw.hpp", "include/mulfft.hpp", "include/cloudkey.hpp", "thirdparties/fftw/fft_processor_fftw.cpp", "thirdparties/spqlios/fft_processor_spqlios.cpp"],
  [("ternary rotation and CMUX forms", "include/detwfa.hpp"), ("KeyBundleFFT", "include/keybundle.hpp"), ("optimal Decomposition", "include/trgsw.hpp"), ("transform back ends", "include/mulfft.hpp, thirdparties")],
  observe=["phases of results recomputed with the keys, per build"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
