"""C10: preprocessing only substitutes append lines; loading is faithful or a kickstart error."""
from requests import exceptions as rex

from pykickstart import load, parser
from pykickstart.errors import KickstartError

BUDGET = {"quick": 120, "thorough": 1800}
BOUNDS = {"verbatim": "all texts of up to 5 (thorough: 7) characters of any kind, as text and as a file",
          "markers": "texts around the append word: up to 3 arbitrary characters before and after it and after the name",
          "sequences": "files of 1..4 lines, each an ordinary line of 2 arbitrary characters, a look-alike, or an append "
                       "line (five spellings) of a present, missing, undecodable file or directory, with each of three "
                       "line ends, the last line with or without one; contents of 2 arbitrary characters",
          "location": "all locations of 1..5 (thorough: 6) characters, every outcome of the fetch (any status number, every "
                      "kind of request failure) and of the file access, read to text and to a file"}
ENCODED = ["parser._preprocessStateMachine/preprocessFromStringToString/preprocessKickstartToString/preprocessFromString/"
           "preprocessKickstart", "load.load_to_str/load_to_file/_load_url/_load_file/_copy_file/_is_url"]
ASSUMPTIONS = ["alphabet of the engine", "the network is a stub", "contents that are appended end with a line end"]
MUST_REACH = ["verbatim", "appended", "failed", "lookalike", "url", "file", "copied"]

ENDS = "\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"


def run(fs, how, text, name="d/in"):
    """The preprocessed bytes, or the error."""
    try:
        if how == "str":
            return parser.preprocessFromStringToString(text)
        if how == "file":
            return parser.preprocessKickstartToString(fs.put(name, text))
        before = fs.leftovers()
        if how == "strfile":
            out = parser.preprocessFromString(text)
        else:
            out = parser.preprocessKickstart(fs.put(name, text))
        got = fs.read(out)
        new = [x for x in fs.leftovers() if x not in before]
        if len(new) != 1 or not out.endswith(new[0]):
            return "other temporary files"
        return got.encode("utf-8")
    except KickstartError as e:
        return e


def verbatim(cx, p):
    fs = cx.fs()
    t = cx.string("t", p["n"], "any")
    t = p.get("pre", "") + t
    got = run(fs, p["how"], t)
    cx.check(not isinstance(got, KickstartError), "text refused", lambda: repr(got))
    cx.check_eq(got, t.encode("utf-8"), "text copied", lambda: repr(got))
    cx.check_eq(len(fs.leftovers()), 0 if p["how"] in ("str", "file") else 1, "temporary files")
    cx.cover("verbatim")


def lines_of(t):
    """The lines of a text, with their ends (independent of the code under test)."""
    out = []
    cur = ""
    i = 0
    while i < len(t):
        c = t[i]
        cur = cur + c
        i += 1
        if c == "\r" and i < len(t) and t[i] == "\n":
            cur = cur + "\n"
            i += 1
        if c in ENDS:
            out.append(cur)
            cur = ""
    if len(cur) > 0:
        out.append(cur)
    return out


def markers(cx, p):
    """The append word counts only as the first word of a line."""
    fs = cx.fs()
    body = "bb\n"
    fs.put("cwd/f", body)
    a = cx.string("a", p["a"], "any")
    b = cx.string("b", p["b"], "any")
    c = cx.string("c", p["c"], "any")
    t = a + p["word"] + b + p["name"] + c
    got = run(fs, p["how"], t)
    want = ""
    n = 0
    failed = False
    for ln in lines_of(t):
        n += 1
        w = ln.split()
        if len(w) > 0 and w[0] == "%ksappend":
            if len(w) > 1 and plain(w[1]) == "f":
                want = want + body
                continue
            failed = True
            break
        want = want + ln
    if failed:
        cx.check(isinstance(got, KickstartError), "append of a missing file accepted", lambda: repr(got))
        cx.check_eq(got.lineno, n, "line number")
        cx.cover("failed")
        return
    cx.check(not isinstance(got, KickstartError), "text refused", lambda: repr(got))
    cx.check_eq(got, want.encode("utf-8"), "preprocessed", lambda: repr([got, want]))
    cx.cover("lookalike")


def plain(name):
    """A relative name without leading './'."""
    while name.startswith("./"):
        name = name[1:]
        while name.startswith("/"):
            name = name[1:]
    return name


SPELL = ["%ksappend ", "  %ksappend\t", "%ksappend   ", "\t%ksappend ", "%ksappend\t\t"]
LOOK = ["%ksappendix f", "%ksappends", "# %ksappend f", "x %ksappend f", "%KSAPPEND f", "%%ksappend f", "%ksappend_ f", "%ksinclude f"]


def sequence(cx, p):
    """A file of ordinary and append lines; the first append that fails is reported."""
    fs = cx.fs()
    conts = {}
    for i, n in enumerate(["f", "g", "h"]):
        conts[n] = cx.string("k" + n, 2, "any") + "\n" if i < 2 else ""
        fs.put("cwd/" + n, conts[n])
    fs.mkdir("cwd/dir")
    fs.put("cwd/bin", b"\xff\xfe\x80\n")
    text = ""
    want = ""
    failed = None
    for i, k in enumerate(p["seq"]):
        nl = p["nl"] if i < len(p["seq"]) - 1 or p["last"] else ""
        if k == "l":
            s = cx.string("l%d" % i, 2, "line")
            s = "a" + s
            text = text + s + nl
            want = want + s + nl
        elif k[0] == "x":
            s = LOOK[int(k[1:])]
            text = text + s + nl
            want = want + s + nl
        elif k == "0":
            text = text + "%ksappend" + nl
            failed = i + 1
        else:
            name = {"m": "missing", "d": "dir", "b": "bin"}.get(k, k)
            text = text + SPELL[(i + p["sp"]) % len(SPELL)] + name + p.get("tail", "") + nl
            if k in conts:
                want = want + conts[k]
            else:
                failed = i + 1
        if failed:
            break
    if failed:
        for k in p["seq"][failed:]:
            text = text + "%ksappend missing too\n"
    got = run(fs, p["how"], text)
    if failed:
        cx.check(isinstance(got, KickstartError), "failing append accepted", lambda: repr(got))
        cx.check_eq(got.lineno, failed, "line number of a failing append")
        cx.check_eq(fs.leftovers(), [], "temporary files")
        cx.cover("failed")
        return
    cx.check(not isinstance(got, KickstartError), "text refused", lambda: repr(got))
    cx.check_eq(got, want.encode("utf-8"), "preprocessed", lambda: repr([got, want]))
    cx.check_eq(fs.leftovers() if p["how"] in ("str", "file") else len(fs.leftovers()),
                [] if p["how"] in ("str", "file") else 1, "temporary files")
    cx.cover("appended")


def input_missing(cx, p):
    """A file that cannot be read is a kickstart error."""
    fs = cx.fs()
    fs.mkdir("d/dir")
    fs.put("d/bin", b"a\xc3")
    got = None
    f = parser.preprocessKickstartToString if p["how"] == "file" else parser.preprocessKickstart
    try:
        got = f(fs.root + "/d/" + p["name"])
    except KickstartError as e:
        got = e
    cx.check(isinstance(got, KickstartError), "unreadable file accepted", lambda: repr(got))
    cx.check_eq(fs.leftovers(), [], "temporary files")
    cx.cover("failed")


class Reply(object):
    def __init__(self, status, text):
        self.status_code, self.text = status, text


class Requests(object):
    """Stands for the requests module."""
    codes = None

    def __init__(self, outcome, status, text):
        from requests import codes
        self.codes = codes
        self.outcome, self.status, self.text = outcome, status, text
        self.asked = []

    def get(self, url, **kw):
        self.asked.append((url, kw.get("verify")))
        if self.outcome is not None:
            raise getattr(rex, self.outcome)("stub")
        return Reply(self.status, self.text)


def fetch(location, how, fs, p):
    if how == "str":
        return load.load_to_str(location)
    dest = fs.root + "/out/" + {"ok": "res", "dir": "sub", "nodir": "no/res"}[p.get("dest", "ok")]
    r = load.load_to_file(location, dest)
    return r, fs.read(dest)


def url(cx, p):
    """A location with a scheme is fetched; anything but success is a kickstart error."""
    fs = cx.fs()
    fs.mkdir("out/sub")
    a = cx.string("a", p["a"], "line")
    b = cx.string("b", p["b"], "line")
    body = cx.string("t", 3, p.get("body", "any"))
    loc = a + "://" + b
    status = cx.integer("s", 100, 599) if p["outcome"] is None else 200
    stub = Requests(p["outcome"], status, body)
    old = load.requests
    load.requests = stub
    err = None
    got = None
    try:
        got = fetch(loc, p["how"], fs, p)
    except KickstartError as e:
        err = e
    finally:
        load.requests = old
    cx.check_eq(stub.asked, [(loc, True)], "location fetched")
    bad = p["outcome"] is not None or p.get("dest", "ok") != "ok"
    if bad or status != 200:
        cx.check(err is not None, "failing fetch accepted", lambda: repr([got, status]))
        if p["how"] == "file" and p.get("dest", "ok") == "ok":
            cx.check_eq(fs.read(fs.root + "/out/res"), None, "a failing fetch leaves no file")
    else:
        cx.check(err is None, "fetch refused", lambda: repr(err))
        if p["how"] == "str":
            cx.check_eq(got, body, "fetched text")
        else:
            cx.check_eq(got, (fs.root + "/out/res", body), "fetched file")
    cx.cover("url")


def location(cx, p):
    """Any other location is a file, whatever it looks like."""
    fs = cx.fs()
    fs.mkdir("out/sub")
    fs.mkdir("cwd/d")
    body = cx.string("t", 2, "any")
    fs.put("cwd/a", body)
    fs.put("cwd/d/b", body)
    fs.put("cwd/x:", body)
    fs.put("cwd/q", b"\xe9\n")
    pre = p.get("pre", "")
    s = pre + cx.string("s", p["n"], "any" if not pre else "line")
    stub = Requests(None, 200, "remote")
    old = load.requests
    load.requests = stub
    err = None
    got = None
    try:
        got = fetch(s, p["how"], fs, p)
    except KickstartError as e:
        err = e
    finally:
        load.requests = old
    if "://" in s:
        cx.check_eq([x for x, y in stub.asked], [s], "location fetched")
        cx.cover("url")
        return
    cx.check_eq(stub.asked, [], "no fetch for a file")
    if err is not None:
        if p.get("dest", "ok") == "ok":
            cx.check(plain(s) not in ("a", "d/b", "x:"), "file refused", lambda: repr([s, err]))
            cx.check(p["how"] == "str" or plain(s) != "q", "copy of a file refused")
        cx.cover("file")
        return
    cx.check(p.get("dest", "ok") == "ok", "writing to nowhere accepted")
    cx.check(s.endswith("a") or s.endswith("b") or s.endswith("x:") or (s.endswith("q") and p["how"] == "file"),
             "a missing file was read", lambda: repr(s))
    if s.endswith("q"):
        cx.cover("copied")
        return
    if p["how"] == "str":
        cx.check_eq(got, body, "file text")
    else:
        cx.check_eq(got, (fs.root + "/out/res", body), "copied file")
        cx.cover("copied")
    cx.cover("file")


OUTCOMES = ["SSLError", "ConnectionError", "Timeout", "ConnectTimeout", "ReadTimeout", "InvalidURL", "MissingSchema",
            "InvalidSchema", "TooManyRedirects", "ChunkedEncodingError", "ContentDecodingError", "HTTPError", "ProxyError",
            "RequestException", "InvalidHeader", "RetryError", "StreamConsumedError", "UnrewindableBodyError"]


def jobs(tier):
    q = tier == "quick"
    out = []

    def add(h, cost=5, **p):
        out.append({"h": h, "p": p, "cost": cost})
    for how in ("str", "file", "strfile", "filefile"):
        for n in range(0, 6 if q else 8):
            add("verbatim", 2 ** n, how=how, n=n)
        add("verbatim", 5, how=how, n=2, pre="#%ksappen")
        for word in ("%ksappend",):
            for a, b, c in ([(0, 1, 0), (0, 2, 0), (1, 1, 0), (0, 1, 1), (1, 0, 1), (0, 0, 1), (2, 1, 0), (0, 1, 2)] +
                            ([(0, 3, 0), (1, 1, 1), (3, 1, 0), (2, 2, 1), (1, 2, 2), (0, 4, 0)] if how == "str" or not q else [])):
                add("markers", 5 * 3 ** (a + b + c), how=how, a=a, b=b, c=c, word=word, name="f")
        add("markers", 30, how=how, a=1, b=1, c=1, word="%ksappend", name="")
        add("markers", 30, how=how, a=1, b=2, c=0, word="%ksappen", name=" f")
        for name in ("no", "dir", "bin"):
            if how in ("file", "filefile"):
                add("input_missing", 1, how=how, name=name)
    k = 0
    kinds = ["l", "f", "g", "h", "m", "d", "b", "0"]
    seqs = [[a] for a in kinds] + [["x%d" % i] for i in range(len(LOOK))]
    seqs += [[a, b] for a in kinds for b in kinds]
    seqs += [["x%d" % i, "f"] for i in range(len(LOOK))] + [["g", "x%d" % i] for i in range(len(LOOK))]
    seqs += [["l", a, b] for a in kinds for b in kinds] + [[a, "l", b] for a in ("f", "g", "h") for b in kinds]
    if q:
        seqs += [["f", "l", "g", "m"], ["l", "f", "f", "l"], ["f", "g", "h", "0"], ["x1", "f", "l", "d"], ["g", "f", "g", "b"],
                 ["f", "x0", "g", "l"]]
    else:
        ks = ["l", "f", "g", "h", "m", "0", "x0"]
        seqs += [[a, b, c, d] for a in ks for b in ks for c in ks for d in ks]
    for s in seqs:
        for how in (("str", "file", "strfile", "filefile") if not q else [("str", "file", "strfile", "filefile")[k % 4]]):
            add("sequence", 4, seq=s, how=how, nl=("\n", "\r\n", "\n")[k % 3], last=k % 2 == 0, sp=k)
        k += 1
        if k % 5 == 0:
            add("sequence", 4, seq=s, how="str", nl="\n", last=True, sp=k, tail=" more words")
    for how in ("str", "file"):
        for a, b in ((0, 1), (1, 0), (2, 2)):
            add("url", 5, how=how, a=a, b=b, outcome=None)
        for o in OUTCOMES:
            add("url", 3, how=how, a=1, b=1, outcome=o)
        for n in range(0, 6 if q else 7):
            add("location", 4 ** n // 8 + 1, how=how, n=n)
        for pre in ("http:", "x:", "x:/", "/", "http:/", "d/"):
            add("location", 9, how=how, n=2, pre=pre)
    add("url", 3, how="file", a=1, b=1, outcome=None, dest="dir")
    add("url", 3, how="file", a=1, b=1, outcome=None, dest="nodir")
    add("location", 9, how="file", n=1, dest="dir")
    add("location", 9, how="file", n=1, dest="nodir")
    return out
