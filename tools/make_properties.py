#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  One call of P(...) per property."""
import json, os
SRC = "src/main/java/io/fastprintf/"
ROWS = []

def P(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    ROWS.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": [SRC + f for f in files],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": SRC + w} for n, w in mech],
            "observe_at": observe, "hook_needed": None}})

P("C01", "A compiled formatter is safe to share between threads",
  "A compiled formatter can be used by any number of threads at once, with or without its per-thread buffer cache: "
  "every call returns what it would have returned alone. Formatting never writes to memory that another thread's "
  "call on the same formatter, or on any other formatter, could also reach.",
  ["schedules", "inputs", "configurations"],
  "every interleaving of concurrent calls on one or several formatters, every format string and argument type",
  "The few multi-threaded tests run a handful of schedules on one format; a shared write shows up only under a particular interleaving.",
  ["FastPrintfImpl.java", "FormatContext.java", "appender/DefaultAppender.java", "appender/SeqFormatter.java", "seq/LazySeq.java", "seq/CharArray.java", "seq/Repeated.java", "util/internal/DoubleToDecimal.java", "util/internal/FormattedFPDecimal.java"],
  [("final fields, copy-on-derive contexts, per-call builders, per-thread cache", "FastPrintfImpl.java"), ("context copies instead of in-place edits", "FormatContext.java")],
  ["String returned by format", "characters received by the destination"],
  [("compiled appenders", "shared by all callers", "FastPrintfImpl.appenders"), ("cached builder", "one per thread", "FastPrintfImpl.threadLocalBuilder")])

P("C02", "A call's output never contains anything left over from another call",
  "The text produced by a call depends only on the format string and on the arguments given to that call. Earlier calls, calls that "
  "ended with an exception half way, and calls made by an argument while it is being printed leave nothing behind that shows up in the output, "
  "also when the per-thread buffer cache is enabled.",
  ["histories", "fault_sequences", "configurations"],
  "every sequence of successful, failing and nested calls on one formatter, cache on or off, any capacity",
  "Tests format a few times in a row and succeed each time; they do not fail in the middle of a directive and reuse the formatter, nor nest calls.",
  ["FastPrintfImpl.java", "ArgsImpl.java"],
  [("buffer is emptied or replaced when it is taken", "FastPrintfImpl.java"), ("fresh iterator per call", "ArgsImpl.java")],
  ["String returned by format"],
  [("cached builder", "may hold text of an earlier call when taken", "FastPrintfImpl.threadLocalBuilder")])

P("C03", "Arguments are consumed left to right, one per conversion and one per star",
  "Every conversion takes exactly one argument, preceded by one for a '*' width and then one for a '*' precision, strictly in the order given; literal text and '%%' take none. "
  "When an argument is missing the call fails with the library's formatting exception instead of printing something else, and surplus arguments are ignored.",
  ["inputs", "programs"],
  "every format string (any mix of literals, conversions and stars) and every argument list, shorter, equal or longer than needed",
  "Tests use a fixed set of directives; combinations of star width, star precision and missing arguments at each position are not enumerated.",
  ["appender/DefaultAppender.java", "appender/FixedStringAppender.java", "FastPrintfImpl.java", "ArgsImpl.java"],
  [("hasNext checked before each next, width then precision then value", "appender/DefaultAppender.java"), ("directives visited in order with one iterator", "FastPrintfImpl.java")],
  ["text printed for each conversion", "exception on missing argument"])

P("C04", "Field width is a minimum: output is padded to it and never truncated",
  "For every conversion the printed field has exactly max(width, natural length) characters, the natural text appears in it unabridged, and the padding is "
  "on the left by default and on the right with '-'. Fill characters other than the zeros of a numeric '0' flag are spaces, and text, character, pointer, date and not-a-number or infinite fields are filled with spaces only.",
  ["inputs", "configurations"],
  "every conversion, flag combination, width, precision and argument value",
  "Tests sample widths for some conversions; the length relation involves the symbolic lengths of sign, prefix, digits and padding.",
  ["appender/SeqFormatter.java", "seq/Seq.java", "seq/AtomicSeqIterable.java", "seq/Concat.java", "seq/SeqArray.java"],
  [("space justification", "appender/SeqFormatter.java"), ("sequence lengths", "seq/Concat.java")],
  ["length and layout of each printed field"])

P("C05", "Sign, prefix and zero padding sit in the right place for numbers",
  "A number prints as sign, then radix prefix, then zeros, then digits: '-' for negative values, otherwise '+' with the plus flag, otherwise a blank with the space flag, "
  "for signed conversions only. Zeros from the '0' flag fill the field exactly to the width, and the flag is ignored with '-' and, for integers, when a precision is given. "
  "With '#', nonzero hexadecimal output carries 0x and nonzero octal output a leading 0, and neither flag changes the digits.",
  ["inputs", "configurations"],
  "all 32 flag combinations x width x precision x sign x magnitude for d, i, u, o, x, X, f, F, e, E, g, G, a, A",
  "The flag lattice times symbolic lengths is not enumerated by tests; many combinations appear only for one conversion.",
  ["appender/SeqFormatter.java", "appender/DefaultAppender.java"],
  [("sign, signAndJustify, formatUnsignedInteger", "appender/SeqFormatter.java")],
  ["layout of printed numbers"])

P("C06", "Precision means what printf says for every conversion",
  "For integers precision is the minimum number of digits (and a zero value with precision zero prints no digits), for strings it is the maximum number of characters taken from the start, "
  "and for floating point it is passed unchanged to rounding, with 6 when absent and, for 'g', zero counted as one. A negative '*' precision counts as absent. "
  "Fixed and scientific output has exactly the requested number of fraction digits, and a decimal point without digits only with '#'.",
  ["inputs", "configurations"],
  "every conversion, precision given as literal, as star or not at all, every argument value",
  "Tests pin individual precisions; boundaries such as precision equal to the length or one above it are sampled.",
  ["appender/SeqFormatter.java", "appender/DefaultAppender.java"],
  [("precision handling per conversion", "appender/SeqFormatter.java"), ("star precision", "appender/DefaultAppender.java")],
  ["digits and characters printed"])

P("C07", "Width and precision are bounded before anything is padded",
  "A width or precision above 65536, written in the format or supplied through '*' with either sign, is rejected with an exception before any output of that directive, so no format or argument can force huge padding. "
  "A negative '*' width means left-justify with its absolute value; every value up to the limit is used as given.",
  ["inputs"],
  "every int supplied through a star, including the extreme values, and every literal number in a format",
  "Tests try a few large numbers; the extreme negative value and literals next to the limit are not covered.",
  ["FormatContext.java", "appender/DefaultAppender.java", "Compiler.java"],
  [("range check on every way a width or precision is set", "FormatContext.java")],
  ["exception or printed width"])

P("C08", "Compiling any string either succeeds or reports a syntax error",
  "Compiling an arbitrary non-null string terminates with a formatter or with the library's own exceptions (syntax error, or limit exceeded); no index error, number-format error, null pointer or stack overflow escapes, whatever the length or content of the string. "
  "The syntax error reports a position inside the format string or at its end.",
  ["inputs", "programs"],
  "every string, including truncated directives, unterminated date patterns, huge numbers and very long formats",
  "Tests compile short hand-written formats; truncation at every position and very long formats are not enumerated.",
  ["Compiler.java", "Flag.java", "Specifier.java", "FormatContext.java"],
  [("end-of-source guard before each read", "Compiler.java"), ("iteration rather than recursion over directives", "Compiler.java")],
  ["exception class thrown by compile"],
  [("lookahead", "index of the next unread character", "Compiler.lookahead")])

P("C09", "The format string is split into literals and directives without loss",
  "Every character of the format string ends up in exactly one place: literal text is printed verbatim and in order, '%%' prints one percent sign, and each directive covers exactly its own characters. "
  "The flags, width, precision, conversion letter and date pattern used for printing are precisely those written in the directive.",
  ["programs", "inputs"],
  "every format string accepted by compile",
  "Tests compare whole outputs for chosen formats; a dropped or duplicated character at a particular boundary is only seen if that boundary is tried.",
  ["Compiler.java", "appender/FixedStringAppender.java", "FormatContext.java"],
  [("scanner advancing one cursor", "Compiler.java")],
  ["printed literal text", "layout chosen for each directive"])

P("C10", "Each conversion letter selects its documented conversion",
  "The letters d i u o x X f F e E g G a A c s S t T n p each select their documented conversion, an upper-case letter prints the ASCII upper-case form of what its lower-case partner prints, 'i' equals 'd', and any other letter is rejected when compiling. "
  "The flag characters '-', '+', blank, '#', '0' each switch on their own documented effect and a repeated flag is rejected.",
  ["inputs", "programs"],
  "all 65536 characters in conversion and flag position",
  "Tests cover listed letters with particular values; nothing ties every letter, its partner and its flags together.",
  ["Specifier.java", "Flag.java", "appender/DefaultAppender.java"],
  [("conversion table", "appender/DefaultAppender.java"), ("letter lookup", "Specifier.java"), ("flag lookup", "Flag.java")],
  ["printed conversion", "syntax error for unknown letters"])

P("C11", "Typed, boxed and generic argument entry points agree",
  "An argument prints the same through every conversion whether it was added with the generic method, the varargs call, an iterable, the primitive method or the nullable method of its type; only the pointer conversion may tell a primitive apart. "
  "Each add appends exactly one argument at the end, a null always becomes the null argument, and reading the values back yields the added objects in order.",
  ["inputs", "programs"],
  "every supported argument type and value, every entry point, every conversion",
  "Tests check single types through single entry points; the cross product of type, entry point and conversion is not enumerated.",
  ["ArgsImpl.java", "Args.java", "traits/FormatTraits.java", "traits/IntTraits.java", "traits/RefSlot.java"],
  [("type dispatch", "ArgsImpl.java"), ("one trait class per type", "traits/FormatTraits.java")],
  ["printed text", "Args.values"])

P("C12", "Integers print exactly, in the width of their own type",
  "Every byte, short, char, int, long and big integer prints all digits of its exact value, including the minimum of each type; unsigned conversions print the two's-complement value in the width of the argument's own type. "
  "No value is narrowed, sign-changed or rounded on the way, and a negative big integer in an unsigned conversion is an error.",
  ["inputs"],
  "every value of every integral argument type in d, i, u, o, x, X and s",
  "Tests sample values; a narrowing that only matters outside the int range or only for one type stays invisible.",
  ["number/ByteWrapper.java", "number/ShortWrapper.java", "number/IntWrapper.java", "number/LongWrapper.java", "number/BigIntegerWrapper.java", "number/IntForm.java", "traits/LongTraits.java", "util/Utils.java"],
  [("per-type integer forms", "number/IntForm.java"), ("declared length of lazily printed integers", "util/Utils.java")],
  ["printed digits"])

P("C13", "NaN, infinities and negative zero are handled before digit generation",
  "In every floating conversion NaN prints as NaN and infinities as [sign]Infinity, are never rounded, zero-filled or given a radix prefix or exponent, and follow the plus and space flags for the infinities. "
  "Negative zero prints with a minus sign, and the digits printed for a negative number are those of its absolute value.",
  ["inputs", "configurations"],
  "NaN, both infinities, both zeros and every finite value, in f F e E g G a A, with every flag combination",
  "Tests check special values in some conversions with few flags.",
  ["appender/SeqFormatter.java", "number/DoubleWrapper.java", "number/BigDecimalWrapper.java"],
  [("special-value guard at the start of each floating conversion", "appender/SeqFormatter.java")],
  ["printed text of special values"])

P("C14", "Double digits agree with the reference shortest-decimal algorithm",
  "For every finite double and every precision the digits, the decimal point position and the exponent printed by f, e and g equal those of the JDK 21 reference implementation, independent of the JDK at run time. "
  "All numeric tables used for that hold their mathematically defined values.",
  ["inputs"],
  "all 2^64 doubles x precisions; every entry of the power tables",
  "Tests sample doubles; a wrong entry in a 1234-word table or a wrong tie rule touches only a few of 2^64 values.",
  ["util/internal/DoubleToDecimal.java", "util/internal/FormattedFPDecimal.java", "util/internal/MathUtils.java", "util/internal/MultiplyHigh.java", "number/DoubleWrapper.java"],
  [("ported algorithm", "util/internal/DoubleToDecimal.java"), ("power-of-ten tables", "util/internal/MathUtils.java")],
  ["printed digits"])

P("C15", "Big decimals keep every digit and place the point correctly",
  "For any unscaled value and scale, fixed output places the decimal point so that the printed number equals the rounded value, with no digit lost, duplicated or misplaced, and zero prints as zero whatever its scale. "
  "Scientific output has one digit before the point and an exponent with sign and at least two digits that matches the digits.",
  ["inputs"],
  "every unscaled value, every scale (positive, zero, negative) and every precision",
  "Tests use a list of literals; the relation between scale, digit count and precision has several boundary cases.",
  ["number/BigDecimalWrapper.java"],
  [("layout of unscaled digits", "number/BigDecimalWrapper.java")],
  ["printed big decimals"])

P("C16", "Every view of an internal character sequence shows the same characters",
  "However a piece of output text was built (wrapped, repeated, concatenated, cut, upper-cased, produced lazily), its length, its characters by index, its string form, its search results and what it writes to a string builder or to any other destination all describe the same characters. "
  "Cutting or upper-casing commutes with all of these.",
  ["inputs", "programs"],
  "every composition of building operations, every cut position, every length below and above the bulk-copy thresholds",
  "Tests exercise each class on short samples; compositions at symbolic lengths and cut points are not enumerated.",
  ["seq/Seq.java", "seq/AtomicSeqIterable.java", "seq/CharArray.java", "seq/Concat.java", "seq/EmptySeq.java", "seq/LazySeq.java", "seq/Repeated.java", "seq/SeqArray.java", "seq/StrView.java"],
  [("sequence implementations", "seq/Seq.java")],
  ["text appended to destinations", "computed field lengths"])

P("C17", "Upper-case conversions change ASCII letters only",
  "Upper-case conversions map exactly a-z to A-Z and leave every other character, including non-ASCII letters, unchanged; the number of characters never changes. "
  "The mapping is the same for short and long texts, for every destination and in every default locale, and never alters the argument itself.",
  ["inputs", "configurations"],
  "all 65536 characters, every text length, every destination kind",
  "Tests use short ASCII samples; other characters, longer texts and other destinations take different code paths.",
  ["util/Utils.java", "seq/StrView.java", "seq/CharArray.java", "seq/Repeated.java", "seq/AtomicSeqIterable.java", "seq/SeqArray.java"],
  [("ASCII case mapping", "util/Utils.java")],
  ["printed upper-case text"])

P("C18", "Output does not depend on the default locale, charset or platform",
  "Apart from date conversions, the printed text is the same under every default locale, default charset, line separator and time zone: the decimal separator is always '.', digits are ASCII, and no grouping is inserted. "
  "Formatting consults no locale-, charset- or platform-dependent facility of the runtime for its output.",
  ["configurations"],
  "all default locales, charsets, time zones and platforms",
  "Tests run in one environment.",
  ["appender/SeqFormatter.java", "number/DoubleWrapper.java", "number/BigDecimalWrapper.java", "traits/ObjectTraits.java", "util/Utils.java", "util/internal/FormattedFPDecimal.java"],
  [("own digit and case routines", "util/Utils.java")],
  ["printed text"])

P("C19", "Conversion failures surface as the library's exception, never silently",
  "When an argument cannot be converted (text that is not a number, null, empty text as character, an unsupported type) the call fails with the library's formatting exception; number-format, cast, index and null-pointer errors do not escape and no substitute value is printed. "
  "Null prints as 'null' in text and pointer conversions.",
  ["inputs", "fault_sequences"],
  "every argument type and value against every conversion letter",
  "Tests cover typical mismatches; the matrix of types and conversions with malformed values is not enumerated.",
  ["traits/CharSequenceTraits.java", "traits/ObjectTraits.java", "traits/NullTraits.java", "traits/TemporalAccessorTraits.java", "traits/BigDecimalTraits.java", "number/BigIntegerWrapper.java"],
  [("conversion errors translated at the trait", "traits/CharSequenceTraits.java")],
  ["exception class"])

P("C20", "Destinations are append-only and every destination gets the same text",
  "Formatting into a destination only appends: existing content stays, the same destination object is returned, and the appended text equals the string the plain call returns, for string builders and all other destinations. "
  "An I/O error of the destination reaches the caller as an unchecked exception carrying it, and nothing is swallowed or retried.",
  ["inputs", "fault_sequences", "configurations"],
  "every destination kind, every format and argument list, an I/O failure at any append",
  "Tests use builders and one failing destination; agreement of both output paths for every sequence kind is not enumerated.",
  ["FastPrintfImpl.java", "FastPrintf.java", "seq/Seq.java"],
  [("two delivery paths", "FastPrintfImpl.java")],
  ["destination content", "exception and its cause"])

P("C21", "Tuning a formatter yields an equivalent one and leaves the original alone",
  "Enabling the buffer cache or setting the initial capacity returns a formatter that prints exactly the same text and keeps the other setting; the original keeps behaving as before. "
  "Asking for what is already set returns the same formatter, and a non-positive capacity is rejected.",
  ["configurations", "histories"],
  "every order and repetition of tuning calls, every capacity",
  "Tests check one tuning call at a time on simple formats.",
  ["FastPrintfImpl.java"],
  [("derived copies", "FastPrintfImpl.java")],
  ["text printed by original and derived formatters"])

P("C22", "Pointer conversion identifies the caller's own object",
  "The pointer conversion prints the class name, '@' and the lower-case hexadecimal identity hash of the very object the caller passed, 'null' for null, and fails for a primitive argument. "
  "No copy, boxing or wrapper of the argument is ever identified instead.",
  ["inputs"],
  "every argument type and entry point",
  "Identity differs only when a value is re-boxed or cached, which depends on type and value range.",
  ["appender/SeqFormatter.java", "traits/RefSlot.java", "ArgsImpl.java", "traits/IntTraits.java"],
  [("reference kept next to the value", "traits/RefSlot.java")],
  ["printed pointer"])

P("C23", "Date conversions use the given pattern, else the documented default",
  "With a pattern the date conversion prints the temporal value through exactly that pattern; without one it uses the ISO form documented for the type, instants in the system zone, and any other type without a default is an error. "
  "Integral epoch values up to the unsigned 32-bit maximum are seconds, larger ones milliseconds, ints count as unsigned, and negative values are rejected.",
  ["inputs", "configurations"],
  "every temporal type, every numeric epoch value, with and without pattern",
  "Tests check sample dates; the threshold and the type table are not enumerated.",
  ["appender/SeqFormatter.java", "util/Utils.java", "traits/IntTraits.java", "traits/LongTraits.java", "traits/ObjectTraits.java", "traits/TemporalAccessorTraits.java"],
  [("default formatter table", "appender/SeqFormatter.java"), ("epoch interpretation", "util/Utils.java")],
  ["printed date"])

P("C24", "Fallbacks for older Java versions behave like the newer runtime routines",
  "Where a routine of a newer runtime is used when available, the built-in fallback produces identical results for all inputs, so output does not depend on the Java version. "
  "Lookup failures select the fallback and never break class loading, and the library needs nothing beyond the Java 8 platform.",
  ["configurations", "inputs"],
  "every Java version from 8 on, all operand values and repeat counts",
  "Tests run on one Java version, so only one side of each choice is exercised in context.",
  ["seq/Repeated.java", "util/internal/MultiplyHigh.java"],
  [("reflective lookup with fallback", "util/internal/MultiplyHigh.java")],
  ["printed text on different runtimes"])

P("C25", "Formatting never changes its arguments",
  "Formatting leaves the argument list and every argument object as it found them: the same argument list can be formatted again, by any formatter, with the same result, and arrays, builders or sequences passed as arguments keep their content.",
  ["inputs", "histories"],
  "every argument type including mutable character sequences and arrays, every conversion, repeated use",
  "Tests build fresh arguments for every call.",
  ["ArgsImpl.java", "traits/CharSequenceTraits.java", "traits/ObjectTraits.java", "seq/CharArray.java", "util/Utils.java"],
  [("arguments are only read", "traits/FormatTraits.java")],
  ["argument objects after the call"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for r in ROWS:
        f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(ROWS), "properties")
