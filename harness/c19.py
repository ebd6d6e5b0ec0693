"""C19: flattening a kickstart file preserves its meaning."""
import os
import random

from pykickstart.errors import KickstartError
from pykickstart.parser import KickstartParser
from harness import c14, cmdlib
from harness.c01 import state
from harness.c03 import VERSIONS
from harness.c11 import all_of
from tools import ksflatten

BUDGET = {"quick": 150, "thorough": 3000}
BOUNDS = {"layouts": "every version: files of 4..6 (thorough: 4..7) commands (every command of the version occurs) with symbolic "
                     "values, scripts with symbolic bodies (with include lines of their own), package and tolerated sections, "
                     "comments, spread over up to 4 (thorough: 6) files by includes at any place (one inside another, the same "
                     "file twice, inside %packages, absolute or relative, quoted or not), to a file, over an existing "
                     "file or the input itself, or to the screen",
          "failures": "a faulty line (symbolic name), an unterminated section, an unknown section, unbalanced quotes, an "
                      "include that is missing, a directory, not text or of itself, at any place of such a layout; an input "
                      "or an output that cannot be opened; version names of up to 4 symbolic characters"}
ENCODED = ["ksflatten.main/parse_args", "KickstartParser.readKickstart/_handleInclude/_stateMachine", "load.load_to_str",
           "KickstartHandler.__str__", "parse() and __str__ of every command"]
ASSUMPTIONS = ["alphabet of the engine", "the network is a stub", "writing to an open file does not fail"]
MUST_REACH = ["flat", "screen", "failed", "version", "unopened"]

SECT = {"pre": "%pre\n~\n%end\n", "post": "%post --nochroot --log=/~\nx ~\n%%include /no/such/file\n %zz\n%end\n",
        "addon": "%addon a_~\n~ b\n%end\n", "pkg": "%packages\n~\n-b~\n@c~\n%end\n", "com": "# ~\n\n", "err": "%onerror\n~\n%end\n",
        "anac": "%anaconda\npwpolicy root --minlen=8\n%end\n"}
SINCE = {"pre": "FC3", "post": "FC3", "pkg": "FC3", "com": "FC3", "addon": "F18", "err": "F27", "anac": "F22"}
FAULT = {"option": "lang --~9\n", "command": "zz~9 x\n", "section": "%zz~\nx\n%end\n", "quote": "lang \"~\n", "missing": "%include ROOT/no~\n",
         "bare": "%include\n", "dir": "%include ROOT/d\n", "bin": "%include ROOT/bin\n", "insect": "%post\n~\n%include ROOT/no\n%end\n", "self": "%include ROOT/self\n",
         "open": "%post\n~\n", "header": "%post --~9\n%end\n"}


class Maker(object):
    """Builds the files of a layout and what they say together."""
    def __init__(self, cx, p, fs):
        self.cx, self.p, self.fs, self.n = cx, p, fs, 0

    def name(self, k=1):
        self.n += 1
        return self.cx.string("s%d" % self.n, k, "lower")

    def fill(self, t):
        a = t.split("~")
        s = self.name() if len(a) > 1 else ""
        out = a[0]
        for x in a[1:]:
            out = out + s + x
        return out

    def build(self, items, here="d/"):
        """(text of the file, text with the includes followed)."""
        text = flat = ""
        for x in items:
            if isinstance(x, list):
                k, how, sub = x
                name = "f%d" % k
                where = {"rel": "cwd/", "near": here}.get(how, "inc/")
                a, b = self.build(sub, where)
                path = self.fs.put(where + name, a)
                spell = {"abs": path, "rel": name, "near": name, "quote": '"' + path + '"', "comment": path + "  # x"}[how]
                line = "%include " + spell + "\n"
                text = text + line
                flat = flat + b
                if how == "quote" and k % 2:       # twice
                    text = text + line
                    flat = flat + b
            elif x[0] == "!":
                t = self.fill(FAULT[x[1:]].replace("ROOT", self.fs.root))
                text, flat = text + t, flat + t
            elif x == "raw":
                self.n += 1
                t = "%pre --log=/x\ny" + self.cx.string("r%d" % self.n, 3, "line") + "\n%end\n"
                text, flat = text + t, flat + t
            elif x == "inpost":
                body = self.name() + "\n%zz\n"
                path = self.fs.put("inc/po", body)
                s = self.name()
                text = text + "%post --erroronfail\n" + s + "\n%include " + path + "\nlast\n%end\n"
                flat = flat + "%post --erroronfail\n" + s + "\n" + body + "last\n%end\n"
            elif x == "inpkg":
                s = self.name()
                body = s + "\n-z" + s + "\n"
                path = self.fs.put("inc/pk", body)
                text = text + "%packages --ignoremissing\n@core\n%include " + path + "\nlast\n%end\n"
                flat = flat + "%packages --ignoremissing\n@core\n" + body + "last\n%end\n"
            elif x in SECT:
                t = self.fill(SECT[x])
                if VERSIONS[self.p["v"]] < VERSIONS["F8"]:
                    t = t.replace("%end\n", "")
                text, flat = text + t, flat + t
            else:
                self.n += 1
                t = c14.line(self.p["v"], x, self.cx.string("v%d" % self.n, 2, "alnum"))
                text, flat = text + t, flat + t
        return text, flat


def data(h, ver):
    """All the data with an effect."""
    out = all_of(h)
    out = {k: v for k, v in out.items() if k[:2] != "c "}
    for c in c14.active(ver):
        out[c] = state(h, c)
    return out


def twice(items):
    return any(isinstance(x, list) and ((x[1] == "quote" and x[0] % 2) or twice(x[2])) for x in items)


def flatten(argv):
    """(kind of outcome, what was printed)."""
    with cmdlib.quiet() as q:
        try:
            r = ksflatten.main(argv)
            k = "ok" if r[0] == 0 and len(r[1]) == 0 else "failed" if r[0] == 1 and len(r[1]) > 0 else repr(r)
        except SystemExit as e:
            k = "failed" if e.code else "exit"
        except ValueError:      # unbalanced quotes end the tool
            k = "failed"
    return k, q.out.text()


def layout(cx, p):
    """The flat file reads back as the original with its includes followed; or nothing is left."""
    ver = p["v"]
    fs = cx.fs()
    fs.mkdir("d")
    fs.put("bin", b"lang \xff\xfe\n")
    fs.put("self", "%include " + fs.root + "/self\n")
    text, flat = Maker(cx, p, fs).build(p["items"])
    main = fs.put("d/main.ks", text)
    argv = ["-c", main]
    if not (ver == c14.ALL[-1] and p.get("nov")):
        argv = argv + ["-v", ver.lower() if p["out"] == "old" else ver]
    out = {"old": fs.root + "/old", "same": main}.get(p["out"], fs.root + "/out")
    if p["out"] == "old":
        fs.put("old", "old text")
    if p["out"] != "screen":
        argv = argv + ["--output", out] if p["out"] == "old" else argv + ["-o", out]
    r, shown = flatten(argv)
    h1, h2 = cmdlib.pool(ver), cmdlib.pool(ver, 1)
    bad = p.get("bad")
    if not bad:
        with cmdlib.quiet():
            try:
                KickstartParser(h1).readKickstartFromString(flat)
            except KickstartError:      # what is included twice may be one too many
                cx.check(twice(p["items"]), "good file refused", lambda: flat)
                bad = True
    if bad:
        cx.check_eq(r, "failed", "a faulty file flattened", lambda: repr([text, r]))
        cx.check_eq(shown, "", "something printed", lambda: repr(shown))
        if p["out"] == "old":
            cx.check_eq(fs.read(out), "old text", "the earlier file is left alone")
        elif p["out"] == "same":
            cx.check_eq(fs.read(out), text, "the input is left alone")
        else:
            cx.check(not os.path.exists(out), "a result is left behind")
        cx.cover("failed")
        return
    cx.check_eq(r, "ok", "a good file not flattened", lambda: repr([text, r]))
    got = shown if p["out"] == "screen" else fs.read(out)
    if p["out"] != "screen":
        cx.check_eq(shown, "", "something printed", lambda: repr(shown))
        cx.check_eq(fs.read(main) if p["out"] != "same" else text, text, "the input is left alone")
    for f in p["files"]:
        os.unlink(fs.root + "/" + f)
    with cmdlib.quiet():
        KickstartParser(h2).readKickstartFromString(got)
    a, b = data(h1, ver), data(h2, ver)
    if VERSIONS[ver] < VERSIONS["F8"]:      # a blank line between a script and the next section is part of the script
        for d in (a, b):
            d.pop("str")
            d["scripts"] = [[x[0], x[1].rstrip("\n")] + list(x[2:]) for x in d["scripts"]]
    cx.check_eq(b, a, "the data of the flat file", lambda: repr([{x: (b[x], a[x]) for x in a if a[x] != b[x]}, text, got]))
    cx.cover("screen" if p["out"] == "screen" else "flat")


def unopened(cx, p):
    """An input or output that cannot be opened."""
    fs = cx.fs()
    fs.mkdir("dir")
    main = fs.put("main.ks", "lang " + cx.string("s", 2, "lower") + "\n")
    s = cx.string("n", 2, "lower")
    inp = {"dir": fs.root + "/dir", "missing": fs.root + "/" + s, "good": main, "under": main + "/" + s, "empty": ""}[p["in"]]
    out = {"dir": fs.root + "/dir", "nodir": fs.root + "/no/" + s, "under": main + "/" + s, "fine": fs.root + "/out" + s}[p["out"]]
    r, shown = flatten(["-c", inp, "-o", out])
    cx.check_eq([r, shown], ["failed", ""], "outcome", lambda: repr([r, shown]))
    cx.check(p["out"] == "dir" or not os.path.exists(out), "a result is left behind")
    cx.cover("unopened")


def version(cx, p):
    fs = cx.fs()
    main = fs.put("main.ks", "lang xx\n")
    s = cx.string("s", p["n"], "alnum")
    for v in c14.ALL + ["DEVEL"]:
        if len(v) == p["n"]:
            cx.assume(s.upper() != v)
    if s.isdigit():
        cx.assume(cx.none_of(int(s), sorted(VERSIONS.values())))
    r, shown = flatten(["-v", s, "-c", main, "-o", fs.root + "/out"])
    cx.check_eq(r, "failed", "unknown version accepted")
    cx.check(not os.path.exists(fs.root + "/out"), "a result is left behind")
    cx.cover("version")


def nest(r, items, files, kmax):
    """Spread items over files."""
    cnt = [0]

    def go(part, here):
        out = []
        i = 0
        while i < len(part):
            if cnt[0] < kmax and r.random() < 0.45:
                n = r.randint(1, len(part) - i)
                cnt[0] += 1
                k = cnt[0]
                how = r.choice(["abs", "rel", "near", "quote", "comment"])
                where = {"rel": "cwd/", "near": here}.get(how, "inc/")
                files.append(where + "f%d" % k)
                out.append([k, how, go(part[i:i + n], where)])
                i += n
            else:
                out.append(part[i])
                i += 1
        return out
    return go(items, "d/")


def jobs(tier):
    q = tier == "quick"
    out = []

    def add(h, cost=5, **p):
        out.append({"h": h, "p": p, "cost": cost})
    r = random.Random(19)
    for v, _again in [(v, a) for a in range(1 if q else 4) for v in c14.ALL]:
        have = [s for s in SECT if VERSIONS[SINCE[s]] <= VERSIONS[v] and not (VERSIONS[v] < VERSIONS["F8"] and s in ("com",))]
        for k in ((5,) if q else (4, 5, 6, 7)):
            for i, cmds in enumerate(c14.files(v, k)):
                cmds = [c for c in cmds if c != "lilo"]     # written as bootloader; see C01
                items = list(cmds)
                secs = r.sample(have, min(len(have), 1 + i % 3))
                if VERSIONS[v] >= VERSIONS["F8"]:
                    if "pkg" not in secs and r.random() < 0.3:
                        secs.append("inpkg")
                    if r.random() < 0.3:
                        secs.append("inpost")
                    if r.random() < 0.3:
                        secs.append("raw")
                    items += secs
                    r.shuffle(items)
                files = []
                items = nest(r, items, files, 4 if q else 6)
                if VERSIONS[v] < VERSIONS["F8"]:            # a section ends where the next begins
                    items += secs
                if "inpkg" in secs:
                    files.append("inc/pk")
                if "inpost" in secs:
                    files.append("inc/po")
                add("layout", 40, v=v, items=items, files=files, nov=i % 2, out=["file", "old", "same", "screen"][(i + k) % 4])
        if VERSIONS[v] < VERSIONS["F8"]:
            continue
        cmds = c14.files(v, 3)[0]
        for j, f in enumerate(FAULT):
            if q and (j + VERSIONS[v] // 1000) % 3:
                continue
            for place in range(3):
                items = list(cmds)
                items.insert(min(place, len(items)), "!" + f)
                if f == "open":
                    items = [x for x in items if x[0] != "!"] + ["!open"]
                files = []
                if place == 2:
                    items = nest(r, items, files, 2)
                add("layout", 10, v=v, items=items, files=[], bad=1, out=["file", "old", "same", "screen"][(j + place) % 4])
    for i in ("dir", "missing", "under", "empty"):
        add("unopened", **{"in": i, "out": "fine"})
    for o in ("dir", "nodir", "under"):
        add("unopened", **{"in": "good", "out": o})
    for n in range(1, 5):
        add("version", 10, n=n)
    return out
