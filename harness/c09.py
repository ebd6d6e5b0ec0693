"""C09: included files take effect in place, or fail as configured."""
import warnings

from pykickstart import load
from pykickstart.errors import KickstartError, KickstartParseError
from pykickstart.parser import KickstartParser
from harness import cmdlib
from harness.c08 import selection, settings
from harness.c07 import view

BUDGET = {"quick": 150, "thorough": 3000}
BOUNDS = {"in place": "files of up to 12 lines (commands, comments, script, package and tolerated sections; 1..2 symbolic "
                      "characters per line) with every contiguous range of lines moved to a file, and ranges of that file "
                      "moved to further files, up to depth 3; the files in the same, a deeper, a higher or another "
                      "directory, named relatively, relative to the current directory, or absolutely",
          "missing": "an include whose name is symbolic (1..2 characters) among existing files and directories, in every "
                     "place, under every combination of the three flags",
          "errors": "a bad line in an included file, with tolerated and fatal missing includes",
          "histories": "2 files read one after another with the same parser, the first one failing at depth 1..3",
          "location": "an include of a URL of 1..3 symbolic characters (the fetch is a stub, succeeding or failing)"}
ENCODED = ["KickstartParser._handleInclude/readKickstart/_stateMachine/_readSection", "load.load_to_str/_load_file",
           "os.path functions on a virtual file system"]
ASSUMPTIONS = ["alphabet of the engine", "no other process changes the files", "included files end with a line end",
               "a file included in a section does not start with a blank line (those are dropped)"]
MUST_REACH = ["inplace", "nested", "missing", "skipped", "found", "error", "history", "url"]


def run(h, main, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        KickstartParser(h, **kw).readKickstart(main)
    return h


def all_of(h):
    out = {"str": str(h), "scripts": [view(s) for s in h.scripts], "packages": selection(h.packages),
           "settings": settings(h.packages), "platform": h.platform}
    return out


FILES = {
    "mix": ["#platform=x86\n", "lang ~\n", "%pre --log=/l\n", "echo ~\n", "# c~\n", "%end\n", "\n", "keyboard ~\n",
            "%packages --ignoremissing\n", "~\n", "-~\n", "@~\n", "%end\n", "timezone ~\n"],
    "scripts": ["%pre\n", "x~'\n", "%~\n", "%end\n", "# it's\n", "%post --nochroot\n", "#!~\n", "\n", "y~\n", "%end\n",
                "lang ~\n"],
    "cmds": ["user --name=~\n", "repo --name=~ --baseurl=http://x\n", "  # ~\n", "user --name=~\n", "lang ~\n", "lang ~\n"],
    "tags": ["%addon ~\n", "t~\n", "%end\n", "%packages\n", "@~\n", "%end\n", "%packages\n", "-@~\n", "%end\n", "%traceback\n",
             "q~\n", "%end\n"],
    "old": ["%pre\n", "x~\n", "%packages\n", "~\n", "@~\n", "%post\n", "y~\n"],
}


def fill(cx, name):
    out = []
    for i, s in enumerate(FILES[name]):
        a, m, b = s.partition("~")
        if m:
            al = "line" if s[:1] == "x" or s[:1] == "y" else "alnum"
            s = a + cx.string("a%d" % i, 1 if i % 2 else 2, al) + b
        out.append(s)
    return out


PLACES = {"same": ("d/main.ks", ["one.ks", "two.ks", "three.ks"], ["d/one.ks", "d/two.ks", "d/three.ks"]),
          "deeper": ("d/main.ks", ["e/one.ks", "f/two.ks", "three.ks"], ["d/e/one.ks", "d/e/f/two.ks", "d/e/f/three.ks"]),
          "higher": ("d/e/main.ks", ["../one.ks", "../two.ks", "d/three.ks"], ["d/one.ks", "two.ks", "d/three.ks"]),
          "cwd": ("d/main.ks", ["one.ks", "g/two.ks", "three.ks"], ["cwd/one.ks", "cwd/g/two.ks", "cwd/g/three.ks"]),
          "abs": ("d/main.ks", ["/one.ks", "two.ks", "/g/three.ks"], ["o/one.ks", "o/two.ks", "g/three.ks"]),
          "dot": ("main.ks", ["./one.ks", "h/../two.ks", "three.ks"], ["one.ks", "two.ks", "three.ks"])}


def nest(fs, lines, cuts, place, level=0, form=0):
    """Move the ranges into files; returns the text of the outermost file."""
    main, names, paths = PLACES[place]
    if not cuts:
        return "".join(lines)
    a, b = cuts[0]
    rest = [(x - a, y - a) for x, y in cuts[1:]]
    inner = nest(fs, lines[a:b], rest, place, level + 1, form)
    full = fs.put(paths[level], inner)
    name = full if names[level].startswith("/") else names[level]
    inc = ["%%include %s\n" % name, "  %%include   %s\n" % name, "%%include \"%s\"\n" % name][form % 3]
    return "".join(lines[:a]) + inc + "".join(lines[b:])


def inplace(cx, p):
    """The split file gives what the whole one gives."""
    ver = p["v"]
    fs = cx.fs()
    lines = fill(cx, p["file"])
    whole = fs.put("whole.ks", "".join(lines))
    if p["place"] == "dot":
        fs.put("h/x", "")
    main = fs.put(PLACES[p["place"]][0], nest(fs, lines, p["cuts"], p["place"], 0, p["form"]))
    h1 = cmdlib.pool(ver)
    want = all_of(run(h1, whole))
    h2 = cmdlib.pool(ver, 1)
    got = all_of(run(h2, main))
    cx.check_eq(got, want, "included in place", lambda: repr([got, want]))
    cx.cover("nested" if len(p["cuts"]) > 1 else "inplace")


BODY = {"top": ("", "", "lang zz\n"), "sec": ("%post\nx\n", "y\n%end\n", "z\n"), "pkg": ("%packages\na\n", "b\n%end\n", "c\n"),
        "addon": ("%addon q\nx\n", "y\n%end\n", "z\n")}


def missing(cx, p):
    """An include that cannot be read is an error exactly when so configured; otherwise it counts for nothing."""
    ver = p["v"]
    fs = cx.fs()
    s = cx.string("s", p["n"], "alnum")
    head, tail, inc = BODY[p["body"]]
    fs.put("d/ab", inc)
    fs.put("d/a", inc)
    fs.put("d/cd/x", "bogus\n")
    fs.put("d/after", "keyboard kk\n")
    line = "%include " + s + "\n"
    if p["deep"]:
        fs.put("d/mid", line)
        line = "%include mid\n"
    after = "%include after\nkeyboard\n" if False else "%include after\n"
    main = fs.put("d/main", "timezone tt\n" + head + line + tail + after)
    exists = (s == "ab") or (s == "a")
    if p["deep"]:       # names of the other files
        pass
    h = cmdlib.pool(ver)
    try:
        with cmdlib.quiet():
            KickstartParser(h, missingIncludeIsFatal=p["mf"], errorsAreFatal=p["ef"],
                            followIncludes=p["follow"]).readKickstart(main)
    except KickstartError:
        cx.check(not exists and p["mf"] and p["follow"], "include tolerated", lambda: repr([s, p]))
        cx.cover("missing")
        return
    text = "timezone tt\n" + head + (inc if exists and p["follow"] else "") + tail
    if p["follow"]:
        cx.check(exists or not p["mf"], "missing include refused", lambda: repr([s, p]))
        text = text + "keyboard kk\n"
    want = all_of(run(cmdlib.pool(ver, 1), fs.put("whole", text)))
    got = all_of(h)
    cx.check_eq(got, want, "what a file with a missing include gives", lambda: repr([got, want]))
    cx.cover(("found" if exists else "skipped") if p["follow"] else "skipped")


def broken(cx, p):
    """Errors inside an included file are errors of the file."""
    ver = p["v"]
    fs = cx.fs()
    s = cx.string("s", 2, "lower")
    bad = {"cmd": "bo9" + s + "\n", "opt": "lang x --" + s + "9\n", "hdr": "%pre --" + s + "9\nx\n%end\n", "sect": "%" + s + "9\n%end\n",
           "open": "%pre\n" + s + "\n"}[p["bad"]]
    fs.put("d/one", "lang " + s + "\n" + bad)
    fs.put("d/mid", "%include one\n")
    main = fs.put("d/main", "%include " + ("mid" if p["deep"] else "one") + "\ntimezone tt\n")
    h = cmdlib.pool(ver)
    k = KickstartParser(h, missingIncludeIsFatal=p["mf"], errorsAreFatal=p["ef"])
    try:
        with cmdlib.quiet():
            k.readKickstart(main)
    except KickstartParseError:
        cx.check(p["ef"] or p["bad"] in ("sect", "open"), "error tolerated")
        cx.cover("error")
        return
    cx.check(not p["ef"], "error in an included file reported", lambda: repr([bad, p]))
    cx.check_eq(k.errorsCount, 1, "error in an included file counted")
    cx.check_eq([h.lang.lang, h.timezone.timezone], [s, "tt"], "the rest is read")
    cx.cover("error")


def history(cx, p):
    """A parser that failed on one file reads the next one as a new parser would."""
    ver = p["v"]
    fs = cx.fs()
    s = cx.string("s", 2, "lower")
    bad = "b0" + s + "\n" if p["bad"] == "cmd" else "%include no" + s + "\n" if p["bad"] == "inc" else "%post\n" + s + "\n"
    names = ["one", "two", "three"][:p["depth"]]
    for i, n in enumerate(names):
        last = i == len(names) - 1
        fs.put("d/" * (i + 2) + n, bad if last else "%include d/" + names[i + 1] + "\n")
    fs.put("d/x", "timezone wrong\n")
    fs.put("e/x", "timezone " + s + "\n%include y/one\n")
    fs.put("e/y/one", "keyboard " + s + "\n")
    first = fs.put("d/main", "%include d/one\n")
    second = fs.put("e/main", "%include x\nlang " + s + "\n")
    h = cmdlib.pool(ver)
    k = KickstartParser(h)
    failed = False
    with cmdlib.quiet():
        try:
            k.readKickstart(first)
        except KickstartError:
            failed = True
        cx.check(failed, "first file refused")
        k.readKickstart(second)
    cx.check_eq([h.timezone.timezone, h.keyboard.keyboard, h.lang.lang, len(h.scripts)], [s, s, s, 0],
                "second file after a failure", lambda: repr([h.timezone.timezone, h.keyboard.keyboard]))
    cx.cover("history")


def url(cx, p):
    """A remote file is fetched and read in place; a failing fetch is a missing include."""
    ver = p["v"]
    fs = cx.fs()
    s = cx.string("s", p["n"], "alnum")
    scheme = p["scheme"]
    asked = []

    def stub(location):
        asked.append(location)
        if not p["works"]:
            raise KickstartError("no route")
        return "keyboard kk\n"
    fs.put("d/loc", "timezone tt\n")
    main = fs.put("d/main", "%include " + scheme + s + "\n%include loc\n")
    h = cmdlib.pool(ver)
    old = load._load_url
    load._load_url = stub
    try:
        with cmdlib.quiet():
            KickstartParser(h, missingIncludeIsFatal=p["mf"]).readKickstart(main)
    except KickstartError:
        cx.check(not p["works"] and p["mf"], "remote include tolerated")
        cx.cover("url")
        return
    finally:
        load._load_url = old
    cx.check(p["works"] or not p["mf"], "failing fetch refused")
    cx.check_eq(asked, [scheme + s], "location fetched")
    cx.check_eq([h.keyboard.keyboard, h.timezone.timezone], ["kk" if p["works"] else "", "tt"], "remote include read")
    cx.cover("url")


def jobs(tier):
    q = tier == "quick"
    out = []

    def add(h, cost=5, **p):
        out.append({"h": h, "p": p, "cost": cost})

    n = 0
    places = sorted(PLACES)
    for name in sorted(FILES):
        ls = FILES[name]
        vs = ["F34", "F8", "RHEL7"] if name != "old" else ["FC3", "F7", "RHEL5"]
        if name == "mix":
            vs = vs + ["RHEL6"]

        def inside(i):
            """Line i stands in a section."""
            st = False
            for x in ls[:i]:
                if x.startswith("%end"):
                    st = False
                elif x.split()[0:1] and x.split()[0] in ("%pre", "%post", "%packages", "%addon", "%traceback"):
                    st = True
            return st

        def okcut(a, b):
            return a < b and not (ls[a].strip() == "" and inside(a))
        rng = [(a, b) for a in range(len(ls)) for b in range(a + 1, len(ls) + 1) if okcut(a, b)]
        for c in rng:
            n += 1
            add("inplace", 6, v=vs[n % len(vs)], file=name, cuts=[c], place=places[n % 6], form=n)
            if not q:
                for pl in places:
                    add("inplace", 6, v=vs[(n + 1) % len(vs)], file=name, cuts=[c], place=pl, form=n + 1)
        two = [(c, d) for c in rng for d in rng if c[0] <= d[0] and d[1] <= c[1] and c != d]
        for c, d in two:
            n += 1
            if n % (3 if q else 1) == 0:
                add("inplace", 8, v=vs[n % len(vs)], file=name, cuts=[c, d], place=places[n // 3 % 6], form=n)
            for e in rng:
                if d[0] <= e[0] and e[1] <= d[1] and e != d:
                    n += 1
                    if n % (31 if q else 5) == 0:
                        add("inplace", 9, v=vs[n % len(vs)], file=name, cuts=[c, d, e], place=places[n // 31 % 6], form=n)
    for body in sorted(BODY):
        for mf in (True, False):
            for ef in (True, False):
                for follow in (True, False):
                    for deep in (False, True):
                        for k in ((1, 2) if q else (1, 2, 3)):
                            n += 1
                            add("missing", 6, v=["F34", "F8", "RHEL7", "F20"][n % 4], body=body, mf=mf, ef=ef, follow=follow,
                                deep=deep, n=k)
    for bad in ("cmd", "opt", "hdr", "sect", "open"):
        for mf in (True, False):
            for ef in (True, False):
                for deep in (False, True):
                    n += 1
                    add("broken", 5, v=["F34", "F8", "RHEL7", "F20"][n % 4], bad=bad, mf=mf, ef=ef, deep=deep)
    for bad in ("cmd", "inc", "open"):
        for d in (1, 2, 3):
            for v in ("F34", "F8"):
                add("history", 6, v=v, bad=bad, depth=d)
    for scheme in ("http://", "https://", "ftp://"):
        for works in (True, False):
            for mf in (True, False):
                for k in (1, 3):
                    add("url", 5, v="F34", scheme=scheme, works=works, mf=mf, n=k)
    return out
