"""Harness API: the same harness function runs symbolically and concretely."""
import sys
import time
import traceback



class CheckFailed(BaseException):
    """Concrete replay: a property check failed."""
    def __init__(self, label, detail=""):
        BaseException.__init__(self, label)
        self.label = label
        self.detail = detail


class AssumeFailed(BaseException):
    pass


class ConcreteCx(object):
    """Replay context: inputs come from a recorded counterexample."""
    symbolic = False

    def __init__(self, inputs):
        self.inputs = dict(inputs)
        self.covered = []

    def _get(self, name):
        return self.inputs[name]

    def string(self, name, n, alph):
        return self._get(name)

    def integer(self, name, lo, hi):
        return self._get(name)

    def choose(self, name, n):
        if n <= 1:
            return 0
        return self._get(name)

    def assume(self, c):
        if not c:
            raise AssumeFailed()

    def among(self, x, vals):
        return x in vals

    def none_of(self, x, vals):
        return x not in vals

    def check(self, c, label, detail=""):
        if not c:
            raise CheckFailed(label, detail() if callable(detail) else detail)

    def check_eq(self, a, b, label, detail=""):
        if not _ceq(a, b):
            raise CheckFailed(label, "%s got %r expected %r" % (detail() if callable(detail) else detail, a, b))

    def cover(self, label):
        self.covered.append(label)

    def fail(self, label, detail=""):
        raise CheckFailed(label, detail() if callable(detail) else detail)

    def real(self, x):
        return x

    def note(self, x):
        pass

    def fs(self):
        self._fs = ConcreteFS()
        return self._fs

    def finish(self):
        if getattr(self, "_fs", None) is not None:
            self._fs.close()
            self._fs = None


def _ceq(a, b):
    if type(a) in (list, tuple) and type(b) in (list, tuple):
        return len(a) == len(b) and all(_ceq(x, y) for x, y in zip(a, b))
    if type(a) is dict and type(b) is dict:
        return set(a) == set(b) and all(_ceq(a[k], b[k]) for k in a)
    # keep bool and int apart only when the types differ in kind (True vs "True" never equal)
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    return a == b


class ConcreteFS(object):
    """Real scratch directory for replay."""
    def __init__(self):
        import os, tempfile
        self.os = os
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="sxfs-"))
        self.cwd = self.root + "/cwd"
        os.mkdir(self.cwd)
        self.tmp = self.root + "/tmp"
        os.mkdir(self.tmp)
        self.old = os.getcwd()
        self.oldtmp = tempfile.tempdir
        tempfile.tempdir = self.tmp
        os.chdir(self.cwd)

    def put(self, name, text):
        p = self.root + "/" + name
        self.os.makedirs(self.os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(text if isinstance(text, bytes) else text.encode("utf-8"))
        return p

    def mkdir(self, name):
        self.os.makedirs(self.root + "/" + name, exist_ok=True)

    def read(self, path):
        try:
            with open(path, "rb") as f:
                return f.read().decode("utf-8", "surrogateescape")
        except OSError:
            return None

    def leftovers(self):
        """Entries left in the temporary directory."""
        return sorted(self.os.listdir(self.tmp))

    def close(self):
        import shutil, tempfile
        tempfile.tempdir = self.oldtmp
        self.os.chdir(self.old)
        shutil.rmtree(self.root, ignore_errors=True)


class SymFS(object):
    def __init__(self):
        from . import vfs
        self.m = vfs
        self.v = vfs.CUR = vfs.VFS()
        self.root = self.v.root
        self.cwd = self.v.cwd
        self.tmp = "/tmp"

    def put(self, name, text):
        p = self.root + "/" + name
        self.v.put(p, text)
        return p

    def mkdir(self, name):
        self.v.mkdirs(self.root + "/" + name)

    def read(self, path):
        n = self.v.find(path)
        return n.text if isinstance(n, self.m.Node) else None

    def leftovers(self):
        return sorted(self.v.lookup("/tmp"))

    def close(self):
        self.m.CUR = None


class SymCx(object):
    """Symbolic context over the engine."""
    symbolic = True

    def __init__(self):
        from . import core, values
        from .alph import ALPH
        self.ALPH = ALPH
        self.core = core
        self.v = values
        self.E = core.ENG
        self.inputs = []

    def string(self, name, n, alph):
        E = self.E
        if isinstance(alph, (list, tuple)):
            masks = [self.ALPH[a] for a in alph]
        else:
            masks = [self.ALPH[alph]] * n
        chars = tuple(self.core.Ch(E.new_char("%s_%d" % (name, i), masks[i])) for i in range(n))
        s = self.v._norm(chars) if n else ""
        self.inputs.append((name, s))
        return s

    def integer(self, name, lo, hi):
        v = self.E.new_int(name, lo, hi)
        s = self.v.SymInt(self.core.IVar(v))
        self.inputs.append((name, s))
        return s

    def choose(self, name, n):
        c = self.E.choose(n)
        if n > 1:
            self.inputs.append((name, c))
        return c

    def assume(self, c):
        if isinstance(c, self.v.SymBool):
            self.E.assume(c.f)
        elif not c:
            raise self.core.Infeasible()

    def among(self, x, vals):
        """x equals one of the concrete vals, as one formula."""
        f = self.core.f_or([self.eq_formula(x, y) for y in vals])
        return self.v.SymBool(f) if f is not self.core.TRUE and f is not self.core.FALSE else f is self.core.TRUE

    def none_of(self, x, vals):
        f = self.core.f_not(self.core.f_or([self.eq_formula(x, y) for y in vals]))
        return self.v.SymBool(f) if f is not self.core.TRUE and f is not self.core.FALSE else f is self.core.TRUE

    def check(self, c, label, detail=""):
        self.E.check(self.v.to_f(c), label)

    def check_eq(self, a, b, label, detail=""):
        self.E.check(self.eq_formula(a, b), label)

    def fail(self, label, detail=""):
        self.E.check(self.core.FALSE, label)

    def eq_formula(self, a, b):
        """Structural equality as one formula (no forking)."""
        core, v = self.core, self.v
        ta, tb = type(a), type(b)
        if ta in (list, tuple) and tb in (list, tuple):
            if len(a) != len(b):
                return core.FALSE
            return core.f_and([self.eq_formula(x, y) for x, y in zip(a, b)])
        if ta is dict and tb is dict:
            if set(a) != set(b):
                return core.FALSE
            return core.f_and([self.eq_formula(a[k], b[k]) for k in a])
        if ta is v.SymStr or tb is v.SymStr:
            if isinstance(a, (str, v.SymStr)) and isinstance(b, (str, v.SymStr)):
                if len(a) != len(b):
                    return core.FALSE
                # do not fold identical terms: the solver decides
                return _strict_eq(core, v, a, b)
            return core.FALSE
        if ta is v.SymInt or tb is v.SymInt:
            if isinstance(a, bool) or isinstance(b, bool):
                return core.FALSE
            if isinstance(a, (int, v.SymInt)) and isinstance(b, (int, v.SymInt)):
                return core.Rel("==", v._term(a), v._term(b))
            return core.FALSE
        if ta is v.SymBool or tb is v.SymBool:
            fa, fb = v.to_f(a), v.to_f(b)
            return core.f_or([core.f_and([fa, fb]), core.f_and([core.f_not(fa), core.f_not(fb)])])
        if ta is v.SymBytes or tb is v.SymBytes:
            ta = a.t if ta is v.SymBytes else a.decode("utf-8") if isinstance(a, bytes) else None
            tb = b.t if tb is v.SymBytes else b.decode("utf-8") if isinstance(b, bytes) else None
            if ta is None or tb is None:
                return core.FALSE
            return self.eq_formula(ta, tb)
        return core.TRUE if _ceq(a, b) else core.FALSE

    def cover(self, label):
        self.E.stats.covers += 1
        self.E.stats.cover_labels[label] = self.E.stats.cover_labels.get(label, 0) + 1

    def real(self, x):
        """Pin a symbolic value to concrete text (forks over feasible values)."""
        if isinstance(x, self.v.SymStr):
            return self.v.concretise_str(x)
        if isinstance(x, self.v.SymInt):
            return self.v.concretise_int(x)
        return x

    def note(self, x):
        pass

    def fs(self):
        self._fs = SymFS()
        return self._fs

    def finish(self):
        if getattr(self, "_fs", None) is not None:
            self._fs.close()
            self._fs = None

    def realised(self, model=None):
        E = self.E
        if model is not None:
            E.model = model
            E.dirty = False
        out = []
        for n, s in self.inputs:
            if isinstance(s, (self.v.SymStr, self.v.SymInt)):
                out.append([n, s.realise()])
            else:
                out.append([n, s])
        return out


def _strict_eq(core, v, a, b):
    fs = []
    for x, y in zip(v.chars_of(a), v.chars_of(b)):
        if isinstance(x, core.Ch) and isinstance(y, core.Ch) and x.var is y.var and x.tab == y.tab:
            fs.append(core.Rel("==", x, y))
            continue
        fs.append(core.ch_eq(x, y))
    return core.f_and(fs)


def explore(harness, params, max_paths=100000, budget_s=600.0, max_violations=1, samples=None):
    """Explore every path of harness(cx, params); returns (stats, violations)."""
    from . import core
    E = core.ENG
    E.stats = core.Stats()
    work = [[]]
    violations = []
    t0 = time.time()
    while work:
        prefix = work.pop()
        if E.stats.paths >= max_paths or time.time() - t0 > budget_s:
            E.stats.exhausted = False
            break
        E.reset_path(prefix)
        cx = SymCx()
        E.active = True
        try:
            harness(cx, params)
            E.stats.paths += 1
            if samples is not None and len(samples) < 3 and cx.inputs:
                E.active = False
                try:
                    samples.append(cx.realised())
                except core.Control:
                    pass
        except core.Infeasible:
            E.stats.infeasible += 1
        except core.PathAbort as e:
            E.stats.aborted += 1
            E.stats.aborts[e.why] = E.stats.aborts.get(e.why, 0) + 1
        except core.Violation as e:
            E.active = False
            E.stats.paths += 1
            violations.append({"label": e.label, "inputs": cx.realised(e.model), "params": params})
        except Exception as e:
            # an exception the harness did not expect: candidate violation, decided by replay
            E.active = False
            E.stats.paths += 1
            try:
                inp = cx.realised()
            except core.Control:
                inp = None
            tb = traceback.format_exc()
            violations.append({"label": "uncaught:" + type(e).__name__, "inputs": inp, "params": params,
                               "tb": tb[-3000:]})
        finally:
            E.active = False
            cx.finish()
        work.extend(E.alts)
        if len(violations) >= max_violations:
            if work:
                E.stats.exhausted = False
            break
    return E.stats, violations
