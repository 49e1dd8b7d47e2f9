"""The checks: what each is made of, and what it claims."""

from . import core, interp, macros, real, scopes, spans

LEVEL = "exploration"

CHECKS = {
    "C01": dict(
        technique="online reference-model monitor over random operation histories",
        rule="Random histories of whitespace, text, item, embedding and rebuilding operations on a token stream; after "
        "every operation the real items are compared with a list model. Non-trivial: the stream ends with two or "
        "more items; distinct by history.",
        note="Every operation of every generated history was compared with a list model written from the documented "
        "rules. Histories are random, up to 40 operations with three levels of embedding.",
    ),
    "C02": dict(
        technique="reference-model monitor over formatted output",
        rule="Random token streams (up to three through one formatter), indentation units, depths and newlines; the "
        "output is compared byte for byte with a reference layout. Non-trivial: the output has a line break.",
        note="Output is compared byte for byte with a reference layout which decides each gap from what was requested "
        "in it. Trusts the reference layout (60 lines); indentation is kept within the range of i16.",
    ),
    "C04": dict(
        technique="conservation monitor over random insertion and embedding histories",
        rule="Random histories over four streams of inserting, registering (also tuples), embedding, copying, taking "
        "out and putting back; items carry unique ids, and after every step the collected ids and the written "
        "items are compared with the ids inserted. Non-trivial: a stream holds three or more items.",
        note="Unique ids make loss, duplication and invention of items visible after every step of every history.",
    ),
    "C03": dict(
        technique="fault injection into sinks with an online prefix and no-write-after-failure monitor",
        level="fault_enumeration",
        rule="Random files of all ten languages are written to all sinks and compared; then, for every write call the "
        "formatter makes, that call is made to fail (also short and interrupted io writes) and the error, the "
        "bytes written and later calls are observed. Non-trivial: the file has two or more lines.",
        note="For each generated file every single failure point of the underlying writer is tried. The files are random.",
    ),
    "C05": dict(
        technique="metamorphic monitor over repeated and permuted renderings",
        rule="Random bodies of imports and text in all ten languages, rendered repeatedly, through clones and rebuilt "
        "copies, with uses permuted, repeated and registered. Non-trivial: two or more imports.",
        note="Compares renderings with each other, so no reference is trusted. Hash seeds vary between processes, not "
        "within one.",
    ),
    "C06": dict(
        technique="resolver monitor over rendered Rust files",
        rule="Random sets of Rust imports in all modes, aliases and configurations, with clashing names; the header is "
        "parsed back and every written path resolved against it. Non-trivial: two or more imports.",
        note="Headers are read by a parser of the emitted subset which rejects anything else. Names which clash "
        "without an alias (which genco does not disambiguate for Rust) are kept apart by the generator.",
    ),
    "C07": dict(
        technique="resolver monitor over rendered JavaScript modules",
        rule="Random sets of named, aliased, default and wildcard imports over few modules, with and without a module "
        "path; import clauses are parsed back, and every written name resolved. Non-trivial: two or more imports.",
        note="Clauses are read by a parser of the emitted subset which rejects anything else. Different exports "
        "bound to one name by the user are kept apart by the generator.",
    ),
    "C08": dict(
        technique="resolver monitor over rendered Python files",
        rule="Random sets of Python imports (attributes, modules, aliases, qualified or not); statements are parsed "
        "back and every written reference resolved. Non-trivial: two or more imports.",
        note="Statements are read by a parser of the emitted subset which rejects anything else.",
    ),
    "C09": dict(
        technique="resolver monitor over rendered Java files, with clashing names",
        rule="Random sets of classes sharing simple names over few packages, java.lang and the own package included; "
        "each written name is resolved by Java's scoping rules. Non-trivial: two or more imports.",
        note="Resolution follows the scoping rules of the JLS for single-type imports, the own package and java.lang.",
    ),
    "C10": dict(
        technique="resolver monitor over rendered C# files, with clashing names",
        rule="Random sets of types sharing simple names over nested namespaces, marked as qualified or not; each "
        "written name is resolved by C#'s lookup rules. Non-trivial: two or more imports.",
        note="Resolution follows the lookup rules of the C# specification for using directives and enclosing "
        "namespaces. No C# compiler is available to confirm it.",
    ),
    "C11": dict(
        technique="resolver monitor over rendered C and Go files",
        rule="Random sets of C headers and Go imports, header names and module paths hostile; declarations are parsed "
        "back and compared with the set used. Non-trivial: two or more imports.",
        note="Declarations are read back with independent readers of the languages' syntax.",
    ),
    "C12": dict(
        technique="resolver monitor over rendered Dart and Swift files",
        rule="Random sets of Dart and Swift imports with prefixes and dart:core, library names hostile; declarations "
        "are parsed back and compared with the set used. Non-trivial: two or more imports.",
        note="Declarations are read back with independent readers of the languages' syntax. Neither a Dart nor a Swift "
        "compiler is available to confirm them.",
    ),
    "C13": dict(
        technique="scope monitor over rendered Nix files",
        rule="Random trees of arguments, inherits, withs and nested variables, scoped or not; the header is parsed back "
        "and compared with what the tree binds. Non-trivial: two or more imports.",
        note="Headers are read by a parser of the emitted subset which rejects anything else.",
    ),
    "C14": dict(
        technique="round-trip monitor of string literals, read back by independent readers and the real compilers",
        rule="Hostile strings through every way of quoting (whole, in pieces, nested streams, import declarations) in "
        "all ten languages, read back by readers written from the language references; samples are read by "
        "python3, node, javac, go, gcc and rustc. Non-trivial: the string is not empty.",
        note="Six of ten languages are confirmed by their own implementation. C#, Dart, Swift and Nix rest on readers "
        "written from the language references.",
    ),
    "C15": dict(
        technique="structural round-trip monitor of interpolated strings, with node evaluating samples",
        rule="Random interpolated strings with hostile text, expressions and nested quotes in JavaScript and Dart are read "
        "back part by part by readers written from the language references; node evaluates JavaScript samples. Random "
        "$[str](...) templates of both languages are compiled, run and evaluated in the same way. "
        "Non-trivial: there is an evaluation.",
        note="JavaScript is confirmed by node. Dart rests on a reader written from the language reference.",
    ),
    "C16": dict(
        technique="nesting-grammar monitor over exhaustive short and random long item sequences",
        rule="All sequences of up to six quote items and texts, and random long ones, are classified by a recogniser and "
        "formatted by every entry point; random nested quotes of all languages are read back recursively. "
        "Non-trivial: illegal, or longer than three items, or nested twice.",
        note="Quotes left open, and evaluations in a quote which is said to have none, are not claimed either way.",
    ),
    "C26": dict(
        technique="callback trace monitor with a reference trace, and fault injection into every callback",
        rule="Random streams formatted by four user-defined languages (all callbacks logged, literal evaluations "
        "overridden, file formatting overridden, everything as provided); the trace and output are compared with a "
        "model, and every callback is made to fail once. Non-trivial: five or more events.",
        note="Traces are compared event by event, with the ids of the configuration and format value given.",
    ),
    "C27": dict(
        technique="differential monitor: one template in plain and in hostile surroundings",
        rule="Random templates written into plain modules and into modules with hostile names in scope, without prelude, in "
        "generic code, closures, methods and macros, in three editions, with and without std, with genco renamed; all must "
        "compile and render the same. Non-trivial: a module other than the plain one.",
        note="Each template runs with two sets of values. Names in hostile modules are drawn from those an expansion "
        "might use.",
    ),
    "C28": dict(
        technique="location monitor over compiler diagnostics and evaluated expressions",
        rule="Something wrong (syntax, indentation, names, types, patterns, borrows, receivers, evaluations where there are none) put at a random place of a random "
        "template; an error has to have a primary span within it. Expressions which report where they are called, at random "
        "places, run; the line and column have to be theirs. Non-trivial: it's rejected, or evaluated.",
        note="Whether it's rejected at all is C18.",
    ),
    "C21": dict(
        technique="reference-model monitor over every value conversion",
        rule="Random values (hostile strings, extreme integers, nested collections, functions, streams) through every "
        "FormatInto conversion, at random places of a stream; the rendered text is compared with Display. "
        "Non-trivial: more than the closing text is written.",
        note="Every provided conversion is exercised in every run, see the counters in the evidence.",
    ),
    "C22": dict(
        technique="part-order monitor over rendered files",
        rule="Random files of all ten languages with and without package, imports and body; the file is compared with "
        "its parts rendered on their own. Non-trivial: two or more parts are present.",
        note="The header is taken from a file with another body, and the body from rendering it on its own.",
    ),
    "C23": dict(
        technique="reference-model monitor over comment helpers",
        rule="Random comment lines (hostile text, empty lines, empty comments) given as many kinds of sequences, within "
        "random layouts; the output is compared byte for byte with the reference layout. Non-trivial: two or "
        "more comment lines.",
        note="Lines with line breaks or the end of a comment in them are not generated.",
    ),
    "C24": dict(
        technique="law monitor over all string representations",
        rule="Pairs of hostile strings in all fourteen representations compared for equality, order, hash and set "
        "membership; imports of all ten languages stored in two ways and rendered. Non-trivial: both strings are "
        "not empty, or two imports.",
        note="All pairs of representations are compared for every pair of strings.",
    ),
    "C17": dict(
        technique="layout monitor over generated, compiled and executed templates with a reference interpreter",
        rule="Random templates (all element kinds, nested bodies, hostile spacing, comments, tabs and CRLF) are written as "
        "Rust programs in seven ways of quoting, compiled with genco, run, and their output compared byte for byte "
        "with an interpreter of the documented rules; a share is compiled by the stable compiler, without line information. "
        "Non-trivial: two or more elements; distinct by source and output.",
        note="Each template is compared byte for byte with a reference which works on the template, not on its tokens. "
        "Templates in which a deeper line writes nothing are discarded (the recorded finding, which has a canary).",
    ),
    "C18": dict(
        technique="compile-outcome monitor over templates with faults planted at any depth",
        rule="Valid random templates get one of 193 invalid fragments, or a line of an unknown indentation, at a random "
        "place at any depth; each must give a compile error of the macro at the template, and no panic. Valid ones of "
        "all profiles must compile. Strings with evaluations at any depth must be refused in nine languages which lack "
        "them, and so must templates with 70 statements which stand for incorrect Rust (unknown names, wrong types, "
        "patterns which do not match everything). Templates some of whose tokens are substituted by another macro, from "
        "later lines, must not make a macro panic. Every case is non-trivial; distinct by source.",
        note="Diagnostics of rustc are attributed to the template whose lines they point at. Invalid input is one fault at "
        "a time out of a list; a lone `$` and doc comments are not claimed either way.",
    ),
    "C19": dict(
        technique="evaluation-trace monitor over generated, compiled and executed templates",
        rule="Random templates rich in control flow, in which every expression, condition, guard, iterator step and "
        "conversion logs its id when it's evaluated, and temporaries and bindings when they're dropped; log and output are compared with an interpreter. Non-trivial: two "
        "or more elements; distinct by source, output and log.",
        note="The log orders evaluations and the writing of their values. Iterators with wrong size hints and which "
        "start over after their end are used. What `join` sees of shadowed names is not claimed.",
    ),
    "C20": dict(
        technique="differential monitor over all forms of one template, compiled and executed",
        rule="Each random template is written in six forms (quote!, quote_in! three ways, quote_fn!, through a macro) and "
        "onto three streams which are not empty, with embedded quotes of eleven forms; outputs and evaluations are "
        "compared with an interpreter. Non-trivial: two or more elements; distinct by form, source and output.",
        note="All forms of a template are compared with one reference, and so with each other.",
    ),
    "C25": dict(
        technique="token conservation monitor over generated, compiled and executed templates",
        rule="Random templates rich in kinds of tokens (keywords, raw identifiers, lifetimes, literals of every kind, "
        "adjacent and spaced punctuation), compared with an interpreter; string literals in all spellings, and "
        "$[str](...) of random tokens and constants in all ten languages, compared with quoted() of their values. "
        "Non-trivial: two or more elements, or a string which is not empty.",
        note="Tokens are compared verbatim; how numeric escapes are spelled is left to C14. Token pairs which the Rust lexer "
        "would join are never glued.",
    ),
}


def harness_only(run):
    run.build()
    run.shards()


def c14(run):
    run.build()
    run.shards()
    for k in range(24 if run.thorough else 1):
        real.literals(run, real.READERS, 2500, k)
    strings(run, macros.artifacts(run), 20000 if run.thorough else 1000)


def c15(run):
    run.build()
    run.shards()
    real.templates(run, 200000 if run.thorough else 10000)
    interp.strings(run, macros.artifacts(run), 90000 if run.thorough else 4500)


RUNNERS = {"C14": c14, "C15": c15}


def runner(prop):
    return RUNNERS.get(prop, harness_only)


def templates(profile, quick, thorough):
    def check(run):
        opts = macros.artifacts(run)
        macros.batches(run, opts, lambda r, k: macros.template_case(run, r, k, profile), thorough if run.thorough else quick)
        if run.prop == "C17":
            macros.known(run, opts)
            stable = macros.artifacts(run, core.STABLE)
            macros.batches(run, stable, lambda r, k: macros.template_case(run, r, k, profile, flat=True), 60000 if run.thorough else 1500, salt="stable")
        if run.prop == "C25":
            strings(run, opts, 60000 if run.thorough else 3000)

    return check


def strings(run, opts, n):
    macros.batches(run, opts, lambda r, k: macros.string_case(run, r, k), n, per=100, salt="strings")


def c18(run):
    opts = macros.artifacts(run)
    macros.rejections(run, opts, 150000 if run.thorough else 9600)


def c20(run):
    opts = macros.artifacts(run)
    macros.batches(run, opts, lambda r, k: macros.forms_case(run, r, k), 40000 if run.thorough else 1500, per=25)


RUNNERS.update(C17=templates("layout", 12000, 300000), C18=c18, C19=templates("flow", 9000, 200000), C20=c20,
               C25=templates("tokens", 9000, 200000), C27=scopes.check, C28=spans.check)
