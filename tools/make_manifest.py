#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below and properties.jsonl."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
AI = "abstract interpretation of the compiled source"
CHECKS = {}
NA = {}

def C(id, technique, note):
    CHECKS[id] = (technique, note)

C("C03", AI + " with a recording argument list and output (typestate of the argument iterator)",
  "Every letter with all flags and every kind of width and precision, any number and content of arguments.")
C("C04", AI + " (text-layout domain), relational comparison of the layouts with and without a width",
  "All flags, widths, precisions and values at once; number digits and the library's sequences are taken as texts (C12, C14-C16 cover them).")
C("C05", AI + " (text-layout domain), layouts compared with the sign/prefix/zeros/digits specification",
  "All flags, widths, precisions and values at once; digits themselves are C12 and C14-C15.")
C("C06", AI + " (text-layout domain), precision specification per conversion",
  "Integers, strings and the fraction of f and e exactly; for g and a only what rounding is asked for; c, p and t as without a precision.")
C("C07", AI + " of directive creation and of '*' arguments, range of every accepted width and precision",
  "All int values of '*' arguments and all written numbers the parser can produce.")
C("C08", AI + " of the compiler on an unknown string and on unknown strings of many shapes; call-graph cycle query",
  "Exception classes and error positions for all strings; termination is shown only as absence of recursion.")
C("C09", AI + " of the compiler on structured formats with unknown literals, digits and patterns",
  "Up to four elements per format; literals of any length, numbers up to five digits, eleven shapes of date pattern.")
C("C10", AI + " of letter and flag selection, output compared with the conversion function of the letter",
  "All characters as letter or flag, all flags, widths, precisions and arguments.")
C("C11", AI + " of every way to add an argument, outputs of all conversions compared between the ways",
  "All values of each argument type; the digits of floating values are taken as a function of the value.")
C("C12", AI + " (number-text domain) of the integer wrappers, traits and conversions against exact digits",
  "All values of every integral type including big integers of any size.")
C("C13", AI + " (classes of floating values) of the floating conversions",
  "All flags, widths and precisions; the digits of finite values are abstract; the rounding of a with precisions 1 to 12 is not covered.")
C("C15", AI + " (digit-text domain with exact models of BigDecimal operations) against the placement specification",
  "All unscaled values, scales and digit counts up to a billion (e without rounding: all scales), all precisions; g only up to the stripping of zeros.")
C("C16", AI + " of the sequence classes (text domain): every view compared with the text the construction stands for",
  "Unknown texts, arrays, indices and counts; nestings of up to four parts; search results exactly for texts of up to two characters and in part for all.")
C("C17", AI + " of the case mapping, of upper-cased sequences and of upper-case letters against the exact ASCII map",
  "Unknown characters and texts of any length; strings place by place up to three characters.")

C("C02", AI + " of two calls in sequence, failing calls and nested calls; content of every reused buffer at its first use",
  "Both builder modes, any capacity, any appender output, failures at every appender; one nesting level; every kind of sequence and argument printed after another of its kind.")
C("C18", "call-graph reachability to locale-, charset-, zone- and platform-dependent runtime routines (effect analysis)",
  "All code reachable from the public entry points except date conversions; constant-folded overloads by their locale argument.")
C("C19", AI + " of every conversion on every kind of argument, exception classes at the library's boundary",
  "All flags, widths, precisions and values; text arguments of any content; time values of every supported type.")
C("C20", AI + " of the output entry points with a failing destination (typestate of the destination)",
  "Every destination kind and every failure point; pieces of any content.")
C("C21", AI + " of the configuration methods, all pairs of settings compared",
  "All capacities and both cache modes, in every order.")
C("C22", AI + " with an identity-preserving term domain for object arguments",
  "Every way to add an argument and every flag, width and precision.")
C("C23", AI + " with a model of java.time as uninterpreted functions",
  "All patterns and values; every supported date type; the text produced by the runtime's formatter is taken as a function.")
C("C24", AI + " of both sides of every runtime-dependent choice, equality by polynomial normal form",
  "All inputs of every routine; lookup failures of every kind; compiled against the Java 8 platform only.")

C("C01", "Points-to and write-effect analysis over all code reachable from formatting",
  "Every heap write and every mutating library call reachable from formatting, with call strings of length five; writes under a lock and concurrent collections are left undecided.")
C("C25", "Points-to and write-effect analysis over all code reachable from formatting",
  "Every heap write and every mutating library call reachable from formatting that may touch an argument, an argument list or a sequence brought by the caller.")

C("C14", AI + " of the conversion and of the JDK 21 class files, compared cell by cell; tables compared with their definition",
  "All finite doubles and all precisions up to 65536. Loops that write digits are compared by their code. A difference between forms built from different operations counts only when the folded forms differ at one of a fixed list of values.")

def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
         "notes": "Every check compiles /repo's current sources in memory and analyses the class files; nothing of the library is run. See DESIGN.md."}
    for i in ids:
        if i in CHECKS:
            t, n = CHECKS[i]
            m["checks"].append({"property": i, "quick_cmd": "bash check.sh " + i, "thorough_cmd": "bash check.sh " + i,
                                "technique": t, "level": "other", "level_note": n, "evidence_file": "evidence/%s.json" % i})
        else:
            m["not_applicable"].append({"property": i, "reason": NA.get(i, "No static check for this property has been built yet.")})
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)

main()
