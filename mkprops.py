"""Writes properties.jsonl and MANIFEST.json (run by hand after adding a property)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, text, why, files, mech, note, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                  why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                           "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                           "observe_at": list(observe), "hook_needed": None}, note=note))


CMD = ["pykickstart/commands/", "pykickstart/base.py", "pykickstart/options.py", "pykickstart/handlers/control.py"]

prop("C01", "Written kickstart commands read back as the same data",
     "For every syntax version and every accepted command line whose values need no shell quoting, writing the "
     "resulting data out as kickstart text and reading that text with the same version is accepted and yields equal "
     "data. Writing the re-read data again gives the identical command lines. Only data without effect may be left "
     "out (for example a passphrase without encryption, or a size of zero).",
     ["inputs", "configurations"], "every version, command, option combination and option value",
     "Tests round-trip a few fixed lines per command; a writer that drops, reorders or garbles one option, value or "
     "combination (for example a zero, or two options together) is only visible on the untested combination.",
     CMD, [("per-command __str__ / _getArgsAsStr", "pykickstart/commands/*.py"),
           ("BaseHandler.__str__", "pykickstart/base.py")],
     "all command classes in their contexts; values symbolic up to the stated lengths",
     observe=["str(handler)", "command and data attributes"])
prop("C02", "Every accepted option is stored exactly, and nothing else changes",
     "For every syntax version and every accepted command line, each option given (also repeated, abbreviated, or "
     "given as a separate word) sets the data item it documents to exactly the given value after the documented "
     "conversion. Data items whose options are not given keep their defaults, and repeated options follow the "
     "documented rule (the last one wins, lists accumulate).",
     ["inputs", "configurations"], "every version, command, option, value and combination of compatible options",
     "Tests assert a handful of fixed values; a value-dependent or combination-dependent loss (an empty list, a zero, "
     "a special word, two options together) passes them.",
     CMD, [("parse() of each command", "pykickstart/commands/*.py"),
           ("KickstartCommand.set_to_obj", "pykickstart/base.py"), ("KSOptionParser", "pykickstart/options.py")],
     "contracts of all command classes (spec/commands.json) against the code, values symbolic",
     observe=["command and data attributes after parsing"])
prop("C03", "Each version accepts exactly its own commands and options",
     "For every syntax version, a command name or option name is accepted exactly if that version's syntax has it "
     "(option names may be abbreviated to an unambiguous prefix); any other name is rejected with a parse error that "
     "carries the line number. Commands and options that are deprecated in a version are still accepted but warn, "
     "and commands removed in a version are rejected.",
     ["inputs", "configurations"], "every version, every possible command name and option name",
     "Tests try a few names per command class and never all names in all versions; one wrong entry in the version "
     "tables or one option added or removed in the wrong class only shows in one version.",
     ["pykickstart/handlers/control.py", "pykickstart/handlers/", "pykickstart/commands/", "pykickstart/options.py",
      "pykickstart/base.py"],
     [("commandMap/dataMap", "pykickstart/handlers/control.py"), ("_getParser of each class", "pykickstart/commands/*.py"),
      ("KSOptionParser._parse_optional/remove_argument", "pykickstart/options.py"),
      ("DeprecatedCommand/RemovedCommand", "pykickstart/base.py")],
     "all versions x all commands x all known options, plus symbolic names",
     observe=["accept/reject and warnings of KickstartParser"])
prop("C04", "Illegal values and option combinations are rejected, legal ones accepted",
     "For every syntax version, a command line whose option values are outside the documented set or range, that "
     "lacks a required option or argument, or that combines options documented as incompatible is rejected with a "
     "parse error carrying the line number. Every line within the documented rules is accepted.",
     ["inputs", "configurations"], "every version, command, value and pair of options",
     "The rejected region is infinite; tests sample a few bad values, so a widened or narrowed check (off by one, "
     "one literal, one combination) goes unnoticed.",
     CMD, [("parse() validation of each command", "pykickstart/commands/*.py"), ("option types", "pykickstart/options.py")],
     "value domains, required words, conflicting pairs of all command classes",
     observe=["accept/reject of KickstartParser"])
prop("C05", "Only kickstart errors escape the parser, whatever the text",
     "Reading any text as a kickstart file in any syntax version either succeeds or raises one of the documented "
     "kickstart exceptions, or the ValueError of the shell-like splitter for unbalanced quotes or a trailing escape; "
     "it never fails with any other exception and never loops forever.",
     ["inputs", "configurations"], "every text (any characters), every version, fatal and non-fatal mode",
     "Tests feed well-formed files and a few known mistakes; the untested malformed line is where IndexError, "
     "KeyError or TypeError appear.",
     ["pykickstart/parser.py", "pykickstart/sections.py", "pykickstart/base.py", "pykickstart/commands/"],
     [("_stateMachine/_readSection", "pykickstart/parser.py"), ("dispatcher", "pykickstart/base.py")],
     "symbolic lines in the command area, headers and bodies; symbolic arguments of every command",
     observe=["exception type raised by readKickstartFromString"])
prop("C06", "Errors and warnings point at the offending line",
     "Whatever precedes a faulty command line or section header (blank lines, comments, other commands, sections of "
     "any length), the parse error raised for it carries the line number of that line in its file; so does the "
     "deprecation warning of a command or option and the warning about an unknown section (the deprecation of "
     "%traceback and the checks inside a package list carry none). The error text contains that number and the "
     "message, and data objects remember the line that created them.",
     ["inputs", "histories"], "every file prefix and every faulty line within the bound",
     "Tests put the faulty line first or at one fixed position; counting errors need a specific prefix (a section, "
     "an unterminated section in old syntax, an include).",
     ["pykickstart/parser.py", "pykickstart/errors.py", "pykickstart/base.py", "pykickstart/options.py"],
     [("lineno bookkeeping of _stateMachine/_readSection", "pykickstart/parser.py"),
      ("KickstartError", "pykickstart/errors.py")],
     "symbolic prefixes followed by a faulty line", observe=["exception.lineno, str(exception), warning text"])
prop("C07", "Script sections keep their text, order and options",
     "Every script section of a kickstart file becomes exactly one script with its body verbatim, its own type and "
     "exactly the options of its header, in file order; a section with an all-blank body yields none. Unterminated "
     "sections are an error from Fedora 8 on and end at the next section or the end of file before, and written "
     "scripts and unknown-but-tolerated sections read back unchanged (before Fedora 8 up to blank lines at the end).",
     ["inputs", "histories"], "every body text, header option combination and sequence of sections within the bound",
     "Bodies are arbitrary text (percent signs, section-like words, blank lines); tests use a few benign bodies.",
     ["pykickstart/parser.py", "pykickstart/sections.py", "pykickstart/base.py"],
     [("_readSection", "pykickstart/parser.py"), ("ScriptSection/NullSection", "pykickstart/sections.py"),
      ("Script.__str__", "pykickstart/parser.py")],
     "symbolic bodies, header options and section sequences", observe=["handler.scripts", "str(handler)"])
prop("C08", "The package selection reflects the %packages lines",
     "After reading any sequence of package lines, each package, group, environment or exclusion line has its "
     "documented effect on the selection (comments and blanks ignored, the later of an inclusion and an exclusion "
     "wins, group levels kept, groups removed when excluded), and every header option of the version sets exactly "
     "its own setting. The written section reads back as the same selection.",
     ["inputs", "histories", "configurations"], "every sequence of package lines and header options within the bound",
     "The effect depends on the whole history of lines; tests check a few short lists.",
     ["pykickstart/parser.py", "pykickstart/sections.py"],
     [("Packages.add/_processGroup/__str__", "pykickstart/parser.py"), ("PackageSection", "pykickstart/sections.py")],
     "symbolic lines, sequences of up to 4 lines, header options of every version",
     observe=["handler.packages", "str(handler)"])
prop("C09", "Included files take effect in place, or fail as configured",
     "Reading a file with include lines gives the same data as reading the text with the included files' contents "
     "substituted in place, for nested includes, includes inside sections and paths relative to the including file "
     "(included files end with a line end; blank lines at the start of a file included in a section are dropped). "
     "A missing include is an error exactly when missing includes are configured as fatal, and includes are skipped "
     "when following is switched off.",
     ["inputs", "configurations", "fault_sequences"], "every split of a file into includes, every directory layout and "
     "missing file within the bound",
     "Tests use one or two fixed layouts; depth bookkeeping and relative paths fail only on particular nestings and "
     "after particular failures.",
     ["pykickstart/parser.py", "pykickstart/load.py"],
     [("_handleInclude/readKickstart", "pykickstart/parser.py"), ("load_to_str", "pykickstart/load.py")],
     "symbolic file contents on a virtual file system", state=[("currentdir", "directory per include depth", "KickstartParser")],
     observe=["handler data", "exceptions"])
prop("C10", "Preprocessing only substitutes %ksappend lines",
     "Preprocessing a kickstart text returns it byte for byte except that every append line is replaced by the "
     "contents of the file it names, fetched in order; an unreadable or missing target is a kickstart error naming "
     "the line, and no temporary file stays behind. Only a line whose first word is %ksappend is an append line. Loading distinguishes URLs from files, returns the content unchanged, and reports every failure to "
     "read, fetch or write as a kickstart error.",
     ["inputs", "fault_sequences"], "every text and every failing or succeeding fetch within the bound",
     "Tests preprocess one file; look-alike lines, line endings and failures at the n-th append are not covered.",
     ["pykickstart/parser.py", "pykickstart/load.py"],
     [("_preprocessStateMachine", "pykickstart/parser.py"), ("load_to_str/load_to_file", "pykickstart/load.py")],
     "symbolic lines, symbolic locations and fetch outcomes (the network is a stub)", observe=["returned text", "exceptions"])
prop("C11", "Error counting and the validator's verdict are exact",
     "In non-fatal mode every faulty command and every known section whose header has faulty options is counted "
     "once, reported once on standard error, leaves the rest of the file processed as if it were absent, and does "
     "not stop the parse; in fatal mode the first one stops it. (Unknown or unterminated sections, missing includes "
     "and unbalanced quotes stop the parse in both modes; what a faulty line or section sets itself is not "
     "claimed.) The validator exits zero exactly for files without errors, deprecated items or other parse "
     "warnings, with the number of errors if it could read on, otherwise 1, and always removes its temporary "
     "files.",
     ["inputs", "histories"], "every sequence of good and bad lines within the bound",
     "Counting and recovery depend on the mix and order of faults; tests run a few fixed files.",
     ["pykickstart/parser.py", "tools/ksvalidator.py"],
     [("_tryFunc", "pykickstart/parser.py"), ("main/cleanup", "tools/ksvalidator.py")],
     "sequences of symbolic good/bad lines", observe=["errorsCount", "exit status", "temporary directory"])
prop("C12", "Version names, numbers and syntax handlers correspond one to one",
     "Every documented version name, in any letter case or as a product name, stands for exactly one version number; "
     "the number maps back to that name and to the handler for that version, and every other name or number is "
     "rejected with a version error. The version comment of a file selects its version, and without one the newest "
     "version is used.",
     ["inputs", "configurations"], "every string and integer within the bound",
     "The space of names is infinite; tests check the known constants and a few strings.",
     ["pykickstart/version.py", "pykickstart/handlers/"],
     [("stringToVersion/versionToString/versionFromFile/returnClassForVersion", "pykickstart/version.py")],
     "all strings up to length 5-6, all integers in range", observe=["return values and exceptions"])
prop("C13", "Independent handlers and parsers never influence each other",
     "What one handler or parser reads or is told never changes the data, defaults, accepted syntax or written output "
     "of another one, or of one created later, in any version and in any order of operations.",
     ["histories", "configurations"], "every interleaving of operations on two handlers within the bound",
     "Tests create one object at a time; shared mutable defaults and class-level state need two.",
     ["pykickstart/base.py", "pykickstart/parser.py", "pykickstart/sections.py", "pykickstart/commands/"],
     [("per-instance state of handlers, commands, data, sections", "pykickstart/base.py")],
     "two handlers, every command of every version, symbolic values", observe=["str(handler)", "attributes"])
prop("C14", "The written file has the documented shape and order",
     "Writing out a handler gives a header naming the version (and the platform if set), then all commands by "
     "ascending write priority and alphabetically within one priority, then scripts in order, tolerated sections and "
     "the package section. Each command that produces output appears exactly once, and a command neither seen nor "
     "set writes nothing (except the default bootloader line a new handler has always written).",
     ["inputs", "configurations"], "every set of commands, in every input order, and every version",
     "Order depends on which commands are present and how they were registered; tests compare single commands.",
     ["pykickstart/base.py", "pykickstart/handlers/control.py"],
     [("KickstartHandler.__str__/_insertSorted/_setCommand", "pykickstart/base.py")],
     "permutations and subsets of commands with symbolic priorities and values", observe=["str(handler)"])
prop("C15", "Typed option values are converted the documented way or rejected",
     "Boolean options accept exactly on/yes/true/1 and off/no/false/0 in any case; comma lists are split, stripped "
     "and emptied of blanks; absolute mount points are normalised and other text kept. Repeated list options "
     "accumulate in order, deprecated options warn with the line, and removed options are rejected.",
     ["inputs", "histories"], "every string within the bound and every sequence of list options",
     "Tests use a few example strings; the interesting inputs (spaces, doubled separators, case mixes) are rare.",
     ["pykickstart/options.py"],
     [("commaSplit/ksboolean/mountpoint/ExtendAction/ExtendConstAction/KSOptionParser", "pykickstart/options.py")],
     "all strings up to length 5-7", observe=["values and exceptions"])
prop("C16", "Customising a handler affects exactly the named commands",
     "Command and data overrides given to a handler replace exactly the named entries; masking leaves exactly the "
     "listed commands active and makes the others silently ignored; resetting a command restores its defaults "
     "everywhere it is reachable and in the written output; unknown names raise the documented error. (Replacement "
     "classes have names of their own; the written output after masking is not claimed.)",
     ["histories", "inputs"], "every subset and sequence of register/mask/reset/parse operations within the bound",
     "Tests cover one call at a time on one command; aliases and sequences are not covered.",
     ["pykickstart/base.py", "pykickstart/parser.py"],
     [("registerCommand/registerData/resetCommand/maskAllExcept/dispatcher", "pykickstart/base.py")],
     "symbolic command names and operation sequences", observe=["commands, attributes, str(handler)"])
prop("C17", "The version difference report is exact",
     "For every pair of syntax versions the difference tool reports a command or option as added, removed or "
     "deprecated exactly when the second version's syntax, compared with the first's, has it so. (Options are named by "
     "their first spelling and compared for commands active in both versions; announcements of a later deprecation "
     "are not counted.)",
     ["configurations"], "every ordered pair of versions", "Tests compare one or two pairs.",
     ["tools/ksverdiff.py", "pykickstart/handlers/control.py"], [("main", "tools/ksverdiff.py")],
     "all version pairs", observe=["tool output"])
prop("C18", "Conflicts and duplicates across storage commands are detected in any order",
     "When two command lines conflict in a version (automatic partitioning together with part, raid, volgroup or "
     "logvol, mount together with any of these), the file is rejected whichever comes first, at the second line; when two lines "
     "define the same device, user or similar object, a parse warning is issued for the later one and none for "
     "different objects.",
     ["inputs", "histories"], "every ordered pair of commands and every pair of names",
     "Tests check one order and one name; the check is repeated in many classes and versions.",
     ["pykickstart/commands/", "pykickstart/base.py"],
     [("handler.<cmd>.seen checks and __eq__ of data classes", "pykickstart/commands/*.py")],
     "all ordered command pairs; symbolic names", observe=["exceptions and warnings"])
prop("C19", "Flattening a kickstart file preserves its meaning",
     "The flattening tool writes a single file without includes that reads back, in the same version, as the same "
     "data as the original with its includes followed, or reports failure without leaving a result and without "
     "touching an earlier one. (Before F8 a blank line after a script counts as part of it; data without effect, which "
     "is never written, is not compared.)",
     ["inputs", "fault_sequences"], "every kickstart content and include layout within the bound",
     "Tests flatten two fixed files.", ["tools/ksflatten.py", "pykickstart/parser.py", "pykickstart/base.py"],
     [("main", "tools/ksflatten.py")], "symbolic file contents", observe=["output file, exit status"])
prop("C20", "The shell offers exactly the matching names and edits data line by line",
     "For every partial word the interactive shell's completer offers exactly the commands, or the options of the "
     "command being typed, that start with it, in the selected version, each once and then none. In a session every "
     "typed line acts like that line of a kickstart file; a line with an error, or an unknown internal command, is "
     "reported and changes nothing; .clear starts again with new data; an input file that cannot be fully read leaves "
     "what was read before the error; at the end (.quit, end of input, interrupt) the data is written to the output "
     "file, or shown, and no temporary file remains. An unknown version ends the shell with a failure.",
     ["inputs", "configurations", "histories"], "every prefix, version and session within the bound",
     "Tests try a few prefixes and no sessions.", ["tools/ksshell.py"],
     [("KickstartCompleter, main, internal commands", "tools/ksshell.py")],
     "symbolic prefixes and typed lines", observe=["completer results", "output file or screen", "exit status"])

prop("C21", "Data given by a program is the same as data read from a file",
     "For every command and every data class of every version, the keywords of the constructor, the keywords of a call, and "
     "assigned attributes set exactly the public attributes of these names. Data given in any of these ways is written exactly as the "
     "same data read from a kickstart file (comment lines aside). Unknown keywords and keywords of removed "
     "attributes change nothing, and removed keywords warn. (Install sources are written once they are called or marked as seen.)",
     ["inputs", "configurations"], "every command class, option combination and value within the bound",
     "Tests build few objects with few keywords; a keyword lost in one class of an inheritance chain passes them.",
     CMD, [("__init__/__call__/__str__ of every command and data class", "pykickstart/commands/*.py"),
           ("KickstartCommand.__call__, BaseData.__call__", "pykickstart/base.py")],
     "all command classes in their contexts; values symbolic", observe=["attributes", "str(command)"])
prop("C22", "Sections and commands added by a program get exactly what is theirs",
     "A section registered with a parser (under a new tag or that of a standard section) is given its header with the line number "
     "and the words, then every line of its body verbatim (without blank lines and comments unless it wants all "
     "lines), then its end, once each and in file order, whatever surrounds it; the rest of the file is read as if the section "
     "were absent. A command class added to a handler is given the words, text, name and line number of each of its lines, "
     "its returned data objects are kept in order and written, and its refusals count as errors of that line. Tags that do not "
     "start with a percent sign are refused.",
     ["inputs", "histories"], "every file, section content and order of sections and commands within the bound",
     "Tests register one section and one command with one file each.",
     ["pykickstart/parser.py", "pykickstart/base.py", "pykickstart/sections.py"],
     [("registerSection/_stateMachine/_readSection/_finalize", "pykickstart/parser.py"),
      ("dispatcher, commandUpdates", "pykickstart/base.py"), ("Section", "pykickstart/sections.py")],
     "symbolic bodies, headers, tags and words", observe=["calls of the section and command objects", "handler data"])
prop("C23", "The method command stands for the selected installation source",
     "handler.method names the installation source selected last (by a line of the file or by a program) and stands for it: "
     "reading or setting any attribute through it reads or sets exactly that source's attribute and nothing else, attributes the "
     "source does not have are refused, the command's own attributes stay its own; selecting a source makes it the only one seen, "
     "selecting an unknown one is refused; with none selected it stands for url. It never writes anything itself, and is not a "
     "command of a file. (Sources: cdrom, harddrive, nfs, url, and liveimg and hmc in the versions whose method command knows them.)",
     ["inputs", "histories"], "every history of lines, selections, reads and writes within the bound, with symbolic values and names",
     "Tests walk one fixed history; which source is seen depends on everything done before.",
     ["pykickstart/commands/method.py", "pykickstart/base.py"],
     [("FC3_Method.method/__getattr__/__setattr__", "pykickstart/commands/method.py"),
      ("KickstartCommand.seen", "pykickstart/base.py")],
     "histories of up to 4..6 operations", observe=["attributes of every source and of the method command"])
prop("C24", "A copy of a handler is complete and independent",
     "A deep copy of a handler (fresh, or after reading files, being masked, reset or told an installation source) holds the same "
     "data and writes the same file; its commands belong to the copy, names that shared one command still do; whatever is then done "
     "to either one (reading with an old or a new parser, resetting, masking, changing lists in place) has the effect it would have had "
     "without a copy and leaves the other one as it was. Copies of data objects, scripts and package selections are equal and "
     "written equally.",
     ["inputs", "histories"], "every command of every version with symbolic values, every listed operation on either handler",
     "Tests copy one command object of one version; sharing shows only when both are used afterwards.",
     ["pykickstart/base.py", "pykickstart/parser.py", "pykickstart/options.py", "pykickstart/commands/"],
     [("KickstartHandler, BaseHandler, KickstartObject", "pykickstart/base.py"), ("Packages, Script, Group", "pykickstart/parser.py"),
      ("FC3_Method.__getattr__", "pykickstart/commands/method.py")],
     "one copy, up to 2 operations afterwards", observe=["data, written file, identity of the commands"])
prop("C25", "An option exists under exactly the names and rules declared last",
     "After any history of declaring, redeclaring, deprecating and removing options on a KSOptionParser, a line is accepted exactly "
     "when it uses existing options (by one of their names or an unambiguous beginning) with legal values and gives every "
     "required one; values go to the destinations declared last and the others have their defaults; every use of a deprecated "
     "option warns once, a removed option is refused under each of its names until declared again, refusals name the line; the "
     "help text names the versions each option was added, changed, deprecated and removed in. Parsing again gives the same.",
     ["inputs", "histories"], "every history of declarations and every line within the bound, with symbolic names and values",
     "Tests declare one or two options once; aliases, redeclarations and shortened names interact.",
     ["pykickstart/options.py"],
     [("KSOptionParser.add_argument/remove_argument/_parse_optional/error/parse_args", "pykickstart/options.py"),
      ("ExtendAction, commaSplit, ksboolean", "pykickstart/options.py")],
     "up to 5..6 declarations, lines of up to 2 options", observe=["namespace, exceptions, warnings, help text"])

TECH = "symbolic execution of the instrumented Python source, obligations decided by z3, counterexamples replayed"


def main():
    built = [p for p in P if os.path.exists(os.path.join(HERE, "harness", p["id"].lower() + ".py"))]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in built:
            q = {k: v for k, v in p.items() if k != "note"}
            f.write(json.dumps(q) + "\n")
    m = {"version": 1,
         "setup_cmd": "python3-vt -c \"import sys; sys.path.insert(0, '.'); import z3, pysx.core\"",
         "checks": [{"property": p["id"], "quick_cmd": "./run %s quick" % p["id"],
                     "thorough_cmd": "./run %s thorough" % p["id"], "technique": TECH, "level": "model_checking",
                     "level_note": "Bounded: holds for every value of the symbolic inputs within the bounds in the "
                                   "evidence file (%s); nothing is claimed outside them. Trusts the pysx engine "
                                   "(validated by selftest/ and by concrete replay of path models), CPython and z3."
                                   % p["note"]} for p in built],
         "not_applicable": [],
         "notes": "No hooks in /repo: the code is instrumented at import from its current source. Known findings: "
                  "known_findings.txt."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print("built", [p["id"] for p in built])


main()
