HOOKS = ["b343acd"]
NA = []
prop("T07", "Series summation and continued fractions evaluate what they are given",
     "Binary splitting returns the exact partial sum of any hypergeometric-style series rounded to the context, for every segment of terms and every combination of integer sequences, without touching the terms. The continued-fraction evaluators converge to the value of the fraction they are given, at the caller's precision, and terminate.",
     ["inputs", "programs", "configurations"], "all term sequences, segment lengths, precisions and rounding modes",
     "Recursion depth and the special-cased small segments depend on the number of terms; tests evaluate two fixed fractions and never a general series.",
     ["binary_spliting.go", "continued_frac.go", "math/math.go"], [("BinarySplit", "binary_spliting.go"), ("Lentz/Wallis", "continued_frac.go")],
     "online differential monitor: exact rational partial sums and an independent high-precision evaluation of the same fractions",
     "Exploration: sums are compared with exact rational arithmetic, fractions with values known in closed form evaluated to 60 more digits; termination is supervised by a watchdog.")
MODEL = "online differential monitor against an independent model of the text formats"
MNOTE = "Exploration: every call is judged by a model written from the grammar and the documentation; nothing is claimed for strings and values that were not executed."
prop("S01", "Parsing accepts exactly the numeric-string grammar and keeps the exact value",
     "Every well-formed numeric string is read as exactly the number it denotes: sign, all digits, exponent, infinities, NaNs with payload; reading under a context rounds it once. Every other string is rejected and never accepted as a number. Used receivers and their contexts do not influence the result.",
     ["inputs"], "all byte strings, receivers and contexts",
     "The grammar, the machine-integer limits and the exponent range combine to an unbounded set of strings; tests sample a few dozen.",
     ["scan.go", "big.go"], [("scan", "scan.go"), ("SetString", "big.go, big_ctx.go"), ("UnmarshalText/JSON", "big.go")], MODEL, MNOTE)
prop("S02", "Every number survives conversion to text and back",
     "The textual form of every number is the specification's scientific string, and reading it back yields the identical number: sign, coefficient, exponent, NaN kind and payload. The same holds through the text, JSON and XML encoders and the fmt package. Printing never changes a number.",
     ["inputs"], "all numbers",
     "Tests print a few small numbers; long coefficients, extreme exponents and payloads take other paths.",
     ["format.go", "big.go", "scan.go"], [("format", "format.go"), ("MarshalText", "big.go")], MODEL, MNOTE)
prop("S03", "Formatted output is the correctly rounded and padded number",
     "For every verb, flag, width and precision, formatting prints the number rounded once in its rounding mode to the requested significant or fractional digits, padded as the fmt package does. Formatting never changes the number, and no zero or carry is lost.",
     ["inputs", "configurations"], "all numbers, verbs, flags, widths, precisions and rounding modes",
     "Rounding carries, cuts left of the first digit and padding flags multiply; tests cover a handful of combinations.",
     ["format.go", "big.go"], [("Format", "big.go"), ("roundString", "format.go")], MODEL, MNOTE)
prop("S04", "Numbers read from streams are the tokens the stream contains",
     "Scanning numbers from a stream delivers, for any separators and any splitting into reads, exactly the number each token denotes and leaves the rest of the stream alone. A read error never turns into a number, and is reported.",
     ["inputs", "fault_sequences"], "all streams, read sizes and positions of a read error",
     "Depends on where reads and errors fall; no test reads from a stream that fails.",
     ["scan.go", "big.go"], [("Scan", "big.go"), ("scan", "scan.go")], MODEL + ", with injected read faults", MNOTE)
prop("V01", "Conversion from other number types is exact",
     "Setting a number from an integer, a big integer with a scale, a float64 or a big float stores exactly that value, sign and special values included; setting it from a rational stores the quotient rounded once by the context. Sources are neither changed nor shared, whatever the receiver held before.",
     ["inputs"], "all values of the source types and all receivers",
     "Denormals, machine-integer limits and large exponents take separate branches; tests sample few values.",
     ["big.go", "big_ctx.go"], [("SetFloat64/SetFloat/SetRat/SetBigMantScale", "big.go")],
     "online differential monitor against exact integer and rational arithmetic", "Exploration: every conversion is compared with exact arithmetic; nothing is claimed for values that were not executed.")
prop("V02", "Conversion to other number types truncates, rounds and reports as documented",
     "Conversion to machine integers truncates toward zero and succeeds exactly when the truncated value fits; big integers and rationals are exact; conversion to binary floating point is correctly rounded, with range failures reported. No conversion changes the number or shares its storage.",
     ["inputs"], "all numbers", "The limits of the target types and halfway cases between doubles are met by special inputs only.",
     ["big.go"], [("Int64/Uint64/Int/Rat/Float/Float64", "big.go")],
     "online differential monitor against exact integer and rational arithmetic and correctly rounded parsing", "Exploration: every conversion is compared with exact arithmetic; nothing is claimed for values that were not executed.")
prop("V03", "Decomposition and composition are inverse to each other",
     "Decomposing any number into form, sign, coefficient bytes and exponent and composing these again yields the same number, with any buffer. Composition stores exactly the given parts, rejects unknown forms, and neither side shares memory with the caller's slices.",
     ["inputs"], "all numbers with 32-bit exponents, all parts and buffers", "Depends on buffer capacities, coefficient sizes and leading zeros tests do not vary.",
     ["decomposer.go"], [("Decompose/Compose", "decomposer.go")],
     "online round-trip and differential monitor", "Exploration: every call is compared with the parts' exact meaning; buffers are overwritten after the call to expose sharing.")
prop("V04", "PostgreSQL values are exact within the DECIMAL limits and errors beyond",
     "A number within PostgreSQL's digit limits is passed to the database exactly; beyond them it is a length error naming the part, or, on request, rounded once at the limit in the number's rounding mode. Infinities are refused, NaN and NULL map as documented, the number itself is never changed, and scanning accepts exactly the numeric strings.",
     ["inputs", "configurations"], "all numbers, flags and rounding modes", "The limits lie at 131072 and 16383 digits; tests touch few values there.",
     ["sql/postgres/decimal.go"], [("Value/Scan", "sql/postgres/decimal.go")], MODEL, MNOTE)

prop("R02", "Numbers own their storage",
     "No two numbers, and no number and a value handed in or out (big.Int, big.Rat, big.Float, byte slices, series terms), share mutable storage after a call: changing one through its own methods never changes another. Operands that are not receivers, and the library's cached constants and powers, keep their value through every call.",
     ["histories", "inputs"], "all operations, all operands with any amount of spare storage, all later changes to them",
     "Sharing shows only when a number is changed after the call and has room to be changed in place; tests compare results immediately and drop them.",
     ["big.go", "big_ctx.go", "decomposer.go", "const.go", "internal/arith/pow.go"], [("storage of results", "big.go, big_ctx.go"), ("cached constants", "const.go"), ("powers of ten", "internal/arith/pow.go"), ("Decompose", "decomposer.go")],
     "runtime monitor of storage ownership: operands, results and handed-out values are overwritten over their whole capacity after each call while snapshots of everything else are watched",
     "Exploration: every exported call is executed with roomy operands and poisoned afterwards; sharing that no executed call produced stays unseen.")
prop("R03", "Histories of operations leave the state the specification gives",
     "After any sequence of operations over a set of numbers, each with its own context, traps and accumulated conditions, and with receivers overlapping operands, every number has the value, conditions, context and error the single steps prescribe. A number no step wrote to is unchanged.",
     ["histories", "configurations"], "all sequences of operations, sets of numbers, contexts and traps",
     "Left-over state (coefficient storage, precision caches, forms, conditions) accumulates over steps; unit tests start from fresh numbers.",
     ["big.go", "big_ctx.go", "context.go"], [("operations", "big_ctx.go"), ("methods and their contexts", "big.go"), ("Context.Err", "context.go")],
     "online stateful monitor: random programs run against an independent model that predicts every variable after every step",
     "Exploration: random programs of bounded length; nothing is claimed for histories that were not executed.")
prop("R04", "Concurrent use of distinct receivers is safe",
     "Goroutines that use the library at the same time, sharing only operands they read and never a receiver, cause no data race and get the results they would get alone, from the first use of the library in a process on. Shared operands keep their values.",
     ["schedules"], "all interleavings of calls that share operands, first uses included",
     "Lazily filled caches, shared constants, scratch pools and hidden writes to operands only race under particular schedules; no test is concurrent.",
     ["const.go", "internal/arith/pow.go", "internal/arith/wide.go", "util.go", "big_ctx.go", "big.go"], [("lazy constants", "const.go"), ("power tables", "internal/arith/pow.go"), ("scratch pool", "util.go"), ("readers", "big.go")],
     "race detector (go build -race) over fresh processes with concurrent first use, plus an oracle comparing every concurrent result with the same call executed alone",
     "Exploration: sampled schedules of the Go scheduler with injected yields; the race detector reports happens-before races of the executed schedules.")
prop("R05", "Results depend only on the operands' values",
     "An operation's result, conditions and text do not depend on anything but the represented values and the context: not on what the receiver or the operands held before, how they were constructed, how much storage they own, which operations ran earlier in the process, or what the library's recycled scratch storage contains.",
     ["histories", "inputs"], "all operations, all histories of receivers, operands and the process",
     "A stale field or recycled storage shows only after a particular history; tests use each number once.",
     ["big.go", "big_ctx.go", "util.go", "const.go"], [("receiver reuse", "big_ctx.go"), ("scratch pool", "util.go"), ("caches", "const.go")],
     "runtime monitor for determinism: every call is repeated on fresh and on used storage with scratch storage poisoned by a hook, and all observable outcomes compared",
     "Exploration: sampled histories; the hook (build tag verif) overwrites scratch decimals returned to the pool so that their reuse becomes visible.")
prop("R06", "Hostile input never panics, hangs or corrupts",
     "No exported operation, text entry point or formatting verb panics in the default operating mode or fails to return, whatever numbers of moderate size, contexts, strings and integer arguments it is given. What it returns is a well-formed number whose internal representation is consistent.",
     ["inputs", "configurations"], "all exported calls, all contexts and arguments, with coefficients up to several hundred digits",
     "Limits of exponents, precisions and machine integers combine in ways unit tests do not enumerate.",
     ["big.go", "big_ctx.go", "scan.go", "format.go", "util.go"], [("operations", "big_ctx.go"), ("scan", "scan.go"), ("Format", "format.go")],
     "stress monitor: every exported call under a panic guard, a watchdog and a representation invariant checker",
     "Exploration: sampled hostile inputs; termination means returning within the watchdog's limit of several seconds for a call that normally takes microseconds to milliseconds.")
prop("R07", "The Go operating mode differs exactly as documented",
     "In the Go operating mode an operation without a numeric result panics with ErrNaN, and no other does. Sums, differences and products keep all their digits whatever the precision; every other rounding operation, elementary function and constant yields what it yields in the default mode. Text forms use +Inf, -Inf and NaN, and can be read back.",
     ["inputs", "configurations"], "all operations, operands, precisions and rounding modes in Go mode",
     "No unit test runs the arithmetic in Go mode.",
     ["big.go", "big_ctx.go", "context.go", "format.go"], [("finish/setNaN", "big_ctx.go, big.go"), ("OperatingMode", "context.go")],
     "online differential monitor against the specification's model and, for elementary functions, between the two modes",
     "Exploration: every call is judged by the model; NaN operands of plain copies and roundings are left open, and Abs, Neg, Set, FMA and Rem may keep more digits than the precision, as they always did.")

prop("M01", "The deprecated packages compute what the decimal package does",
     "Every function of the deprecated math and misc packages returns the value, conditions and receiver that the decimal package's operation of the same name gives in the receiver's context. Their variadic maxima and minima return the extremal argument.",
     ["inputs", "configurations"], "all functions, arguments and contexts", "Only a few of the wrappers are called by any test.",
     ["math/math.go", "misc/misc.go"], [("wrappers", "math/math.go, misc/misc.go")],
     "online differential monitor between each function and the operation it stands for, and against an independent order for extremes",
     "Exploration: both are executed on equal arguments; whether the operation itself is right is judged by the other properties.")
prop("M02", "Test vectors are read as written",
     "The readers of the two test vector formats (dectest and suite) return exactly the cases a file contains, in order, with identifier, operation, operands, result, conditions and the settings in force, in any letter case, quoting and spacing the formats allow.",
     ["inputs"], "all files of the two formats", "The generated state machines have hundreds of states; the bundled data visits few.",
     ["dectest/scanner.go", "dectest/case.go", "suite/parser.go", "suite/suite.go"], [("dectest scanner", "dectest/scanner.go"), ("suite parser", "suite/parser.go")],
     "online round-trip monitor: generated files are read back and compared with what was written",
     "Exploration: generated files; rounding modes the scanner does not know (up, 05up) and malformed files are not specified.")
