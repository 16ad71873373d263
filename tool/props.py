"""The properties with a check: how each is decided, over which domain."""

METHOD = ("Static data-flow analysis (abstract interpretation) of the MIR of the current /repo tree: every function "
          "reachable from the client is interpreted over abstract values, states are joined where control flow merges "
          "(no path enumeration, no solver), each panic, overflow and index check of the library and each rule of the "
          "client is one obligation, and an obligation is discharged when the abstract state excludes its violation. ")


def p(rules, domain, level, n, assumptions=(), technique=None):
    d = dict(method=METHOD + rules, domain=domain, level=level, min_clients=n, assumptions=list(assumptions))
    if technique:
        d["technique"] = technique
    return d


PROPS = {
    "C01": p("Rule: no panic, overflow or index check can fail.",
             "all parameter blocks up to 16 registers longer than the module's, all windows up to 20 registers, "
             "all lists of up to 18 channel values of any kind and content, for modules made from every valid parameter block, also with any number of channels of the public parameter "
             "lists removed or added; 20 extreme numbers (infinite, none, far out of range) as analog outputs of every range.",
             "proof", 115,
             ["windows and value lists longer than the bound behave like those at the bound (length checks precede any access)",
              "serial payloads of channel values have at most 3 bytes (quick)"]),
    "C02": p("Rule: for each type of the catalogue, the creating constructor, the reported type, the register count and "
             "the list of types the coupler can instantiate agree.",
             "all 63 module types; parameter blocks of every length from 0 to the declared count plus 4, with any content.",
             "proof", 90),
    "C03": p("Rule: the identification functions equal an independently written catalogue.",
             "all 2^32 identification codes; all ASCII texts of up to 26 characters (the longest catalogued name has fewer) "
             "as type name and of up to 5 characters as category name.",
             "proof", 4, ["texts with non-ASCII characters are not covered"]),
    "C04": p("Rule: number and kind of the values and length of the encoded output, and rejection of every other length.",
             "windows of 0 to 20 registers with any content, lists of 0 to 18 values of any kind, modules made from every "
             "valid parameter block and default modules.",
             "proof", 100,
             ["windows and value lists longer than the bound behave like those at the bound (length checks precede any access)"]),
    "C05": p("Rule: each parameter register sets exactly the documented field of its channel, and every value outside the "
             "documented codes is rejected.",
             "parameter blocks of the declared length with any content, compared against an independently written table of "
             "codes; default modules.", "proof", 30),
    "C06": p("Rule: bit k of the process data is channel k, in both directions.",
             "all windows of the declared length, all lists of bits and 'disabled', modules made from every valid parameter block.",
             "proof", 24),
    "C07": p("Rule: the decoded value lies within a relative tolerance of 1e-6 of the documented scaling function.",
             "all 2^16 codes of each channel under all parameter blocks (range, data format).",
             "proof", 6),
    "C08": p("Rule: each code that is read back is encoded to itself, and each encoded value is the nearest code.",
             "all 2^16 codes, all 2^32 finite 32-bit floating point values, "
             "all output ranges.", "proof", 8),
    "C09": p("Rule: disabled channels are reported as disabled, their output words are zero and the other channels "
             "keep theirs; values of a foreign kind are rejected.",
             "all parameter blocks, all windows of the declared length, each channel in turn disabled or given any foreign value.",
             "proof", 40),
    "C10": p("Rule: the counter words and durations equal the documented composition of registers.",
             "all windows of the declared length; all durations (seconds in 64 bits, nanoseconds) and commands; all parameter blocks.",
             "proof", 7),
    "C11": p("Rule: flags, counters, length byte and payload of a frame equal the documented layout; too short frames, "
             "too long payloads and out-of-range counters are rejected.",
             "all frames of 4 and 8 registers and all shorter ones, all messages (64-bit counters, payloads of up to "
             "15 bytes with any content).", "proof", 9),
    "C12": p("Rule: the concatenation of the payloads of new frames is the written byte stream, one frame per acknowledge.",
             "three cycles after initialisation with arbitrary frames, counters and acknowledges, and arbitrary written bytes "
             "(lengths around the frame size) in both frame sizes, through the processor and through the coupler; one write of 65539 "
             "bytes and the four cycles after it; 300 cycles with an acknowledgement that stays away; 550 cycles (thorough: 1100) of a coupler with writes of both kinds.",
             "other", 14, ["histories are bounded: properties of longer ones rest on the processor's state being what "
                           "these cycles leave behind"]),
    "C13": p("Rule: the bytes read are the concatenation of the payloads of new segments; the acknowledge follows the frame.",
             "three cycles after initialisation with arbitrary input frames, any reads between them, both frame sizes, "
             "through the processor and through the coupler; 550 cycles (thorough: 1100) of a coupler with repetitions, gaps and reads "
             "in between.", "other", 8, ["histories are bounded"]),
    "C14": p("Rule: the first two frames are flush and reset and carry no data, whatever the device reports.",
             "all input frames and output images of the first three cycles, any bytes queued before them.", "other", 4,
             ["histories are bounded"]),
    "C15": p("Rule: the values of a module equal those its own bytes give when decoded alone; windows beyond the image and "
             "unrepresentable offsets are rejected.",
             "each supported module with all 2^16 offsets and none, all images of 0 to 12 registers; lists of three modules "
             "with all offsets, images of 0 to 4 registers (thorough: 8), against each module alone.",
             "proof", 8, ["images longer than the bound behave like those at the bound (only the length check depends on it)",
                          "modules with every channel enabled"]),
    "C16": p("Rule: the image is the composition of the modules' own encodings at their byte positions, unused bytes are "
             "zero, and layouts with gaps, overlaps or unrepresentable offsets are rejected.",
             "eight lists of three or four modules (every width of output data, with and without foreign modules) with all "
             "2^16 offsets and none for each module, all values of the fitting kind.", "proof", 9,
             ["lists of more than four modules are composed of the steps analysed here"]),
    "C17": p("Rule: the output image is the encoding of the reported output values with exactly the written channels "
             "replaced, in the cycle after the write only.",
             "a coupler with digital, analog and counter modules, all images, all 22 channels (pairs of channels: quick 81, "
             "thorough all), all values of the fitting kind, one write of any other kind; acceptance for all 2^128 addresses; "
             "up to three cycles; 265 cycles (thorough: 600) with fixed images and writes of the values reported now or next.", "other", 11, ["histories are bounded"]),
    "C18": p("Rule: two serial modules on one coupler and each alone on its own coupler give the same frames, values and "
             "read bytes.",
             "all four combinations of frame sizes, with and without digital modules around them, five cycles (thorough: 7) "
             "with arbitrary frames of up to 3 received bytes and several schedules of writes and reads; 300 cycles "
             "(thorough: 600) in which the two modules go on at their own pace.", "other", 14,
             ["histories are bounded", "received frames carry at most 3 bytes"]),
    "C19": p("Rule: no panic, overflow or index check can fail; lists of different lengths are rejected.",
             "each supported module with any parameters of any number up to two too many, any offsets, any pending write of "
             "any value to any address, images of any length up to the module's window plus one and any content; three mixed "
             "couplers with several writes and cycles.", "proof", 22,
             ["longer images behave like those at the bound (only the length check depends on it)",
              "at most two cycles (thorough: three)", "two simultaneous writes are to channels below 32"]),
    "C20": p("Rule: a history with a rejected cycle and the same history without it give the same images, values and read bytes.",
             "seven couplers (digital, analog, relay, serial alone, first, last, twice) with pending writes on every module and "
             "queued serial bytes; the rejected cycle stands at any position and has a short input image, a short output "
             "image or a malformed serial frame of any content; 15 couplers with a value that one of their modules cannot take; runs of 300 cycles "
             "(thorough: 600) of four couplers with rejected cycles of all kinds among them.", "other", 8, ["histories are bounded"]),
    "C21": p("Effect rule: every MIR body of the library, called or not, and every type of it is scanned; a mention of a "
             "mutable, interior-mutable or thread local static, of a clock, the environment, files, network, processes, "
             "threads, standard streams, random keys or foreign code, a cast that makes a shared reference mutable, a global "
             "cell initialised from arguments, or a field that changes through a shared reference is a violation. Clients: a "
             "repeated call gives an equal result whatever was called in between, for both directions of every hash map iteration.",
             "all functions, closures and types of the library; each supported module with every channel enabled, all windows "
             "and value lists.", "other", 2,
             ["functions of the standard library and of the dependencies have no effects but the listed ones",
              "hash maps are iterated in either direction of insertion order"],
             "effect analysis over all MIR bodies; abstract interpretation of repeated calls"),
    "C22": dict(p("", "every public type (Send, and Sync for value types); thirteen programs without exclusive access.",
                  "other", 0, ["the auto trait and borrow rules of rustc"],
                  "type-level and compile-fail witnesses checked by rustc; scan for hand-written Send/Sync"),
                method="Type-level witnesses: one line per public type that compiles exactly if the type is Send (Sync), and "
                       "programs driving one coupler from two places that have to be rejected by the borrow checker, each with a "
                       "twin that has to be accepted. No implementation claims Send or Sync by hand for a type with shared state.",
                witnesses=True),
    "C23": p("Rule: the parsed lists, addresses and register counts equal the documented layout.",
             "module lists of up to 8 registers (thorough: 24) of any content, offset lists of up to 13 registers, lists of up to 64 "
             "supported modules, all bit addresses.", "proof", 5,
             ["longer lists are treated element by element in the same way"]),
    "C24": p("Rule: inputs() and outputs() equal the modules' own decoding of their windows; serial channels follow the frames.",
             "each supported module alone and five mixed couplers, all images (serial frames in longer histories: up to 3 bytes), "
             "two to four cycles, with and without pending writes; a line of 64 modules; a serial module through 40 cycles; "
             "modules of one type with any valid parameters of their own; runs of 300 cycles (thorough: 600) of two couplers and of 80 (600) of one "
             "with all module types.", "other", 11, ["histories are bounded"]),
    "C25": p("Rule: a cycle with queued bytes and an acknowledged frame answers with a new frame with data; each such cycle "
             "saves one of the frames that remain; without queued bytes no frame is announced.",
             "six cycles (thorough: 8) after initialisation with arbitrary frames and acknowledges and writes of any bytes before, during and "
             "after it; one write of any length up to three frames; 700 cycles with late acknowledges; both frame sizes; through "
             "the processor and the coupler.", "other", 9, ["histories are bounded"]),
    "C27": p("Rule: an input with exactly one defect is rejected with the error kind of that defect.",
             "all valid parameter blocks cut off anywhere or with any register replaced, all windows of up to 20 registers, all lists "
             "of up to 18 values, any number of channel parameters, all identification codes, ASCII names of up to 26 characters, register lists of up to 5 "
             "registers, all messages of up to 16 bytes, all offsets and layouts of three modules, all addresses, images of any "
             "length up to the complete one.", "proof", 95, ["inputs longer than the bound behave like those at the bound"]),
    "C28": p("Rule: no loop of the library reaches the same state twice for any input; reading in a loop reaches the end.",
             "parameter blocks, windows and value lists as in C01, register lists of up to 12 registers, names of up to 26 characters, "
             "messages of up to 20 bytes, streams with any data, buffers of 0 to 4 bytes, cycles with any images and pending "
             "data of up to 9 bytes.", "other", 26,
             ["recursion and loops whose state grows without bound are reported as undecided, not as violations"]),
    "C29": p("Rule: a default module and one made from the factory default block have equal parameters and decode every "
             "window alike.",
             "all 18 module types with their complete factory default block; all windows of up to one register more than the "
             "module's; default process values.", "proof", 35, ["encoding of values depends on the parameters only (C21)"]),
    "C30": p("Rule: the frequency is the quotient of edge count and period in seconds (relative tolerance 1e-6), and exists "
             "exactly with a period.",
             "windows of 65536 counts (8; thorough: 64 per period) for 14 periods; windows of 65536 decoded periods (8; 64) and of "
             "65536 nanoseconds (6; 64) for 12 counts; all counts without a period.", "other", 5,
             ["counts and periods between the analysed windows behave like those in them"]),
    "C31": p("Rule: each enumeration is made from exactly the codes of an independently written table and converts back to the "
             "code it was made from.",
             "all 16-bit codes, all codes beyond 16 bits and all negative ones, for each of the 19 parameter enumerations.",
             "proof", 19),
    "C32": p("Rule: over a run of cycles, no more elements are held in the second half than in the first one (by a quarter and 16 "
             "elements). The elements held are counted in the abstract state: an upper bound over all containers reachable from "
             "the coupler or processor.",
             "1600 cycles (thorough: 4000) with any bytes: small writes and segments, bursts acknowledged late and read byte by byte, a constant backlog in both directions, "
             "repeated and empty segments, a silent device; both frame sizes; 800 cycles (2000) of a coupler with the writer, with pending data, and "
             "with five modules, values that can't be encoded and rejected cycles.", "other", 8,
             ["what grows does so within the run", "capacity that is reserved without being filled is not counted"]),
}

NOT_APPLICABLE = {
    "C26": "The ground truth (the physical devices) is outside the source: no analysis of the source can decide it. "
           "Internal consistency of the tables is C02, C03 and C23.",
}
