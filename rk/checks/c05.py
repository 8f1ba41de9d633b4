"""C05: activation files and copies are isolated."""
import os
import pathlib
import pickle
import random
from copy import copy

import numpy as np

from ruleskit import Activation, Rule

from .. import env, gen, ref

RULE = ("seeded histories of create / copy / clear / delete / operate / clean_files over a population of activations in all forms, with "
        "canary files beside them, while file names are made to collide (re-seeded generator, tiny or constant random numbers, another "
        "process creating the file between the check and the creation) and while forked processes with the same generator state write "
        "concurrently; after every step the monitor re-reads every living activation and every canary; non-trivial: at least two "
        "file-backed activations alive at once (distinct by history)")
ASSUMPTIONS = ["what happens to a file the user supplied lazily (lasy=True) when that activation is deleted is not judged",
               "the file an activation had before clear() may stay until clean_files"]

CANARIES = {"notes.txt": b"keep me", "ACTIVATION_VECTOR.txt": b"not an activation", "my_ACTIVATION_VECTOR_1.txt": b"x",
            "ACTIVATION_VECTOR_5.npy": b"y", "data.csv": b"a,b\n1,2\n", "activation_vector_7.txt": b"lower case"}


def listing():
    return {p.name for p in env.TMP.iterdir()}


class Collide:
    """Make random file names collide."""

    def __init__(self, rng, mode):
        self.rng, self.mode = rng, mode
        self.fired = 0

    def __enter__(self):
        self.orig = random.randint
        self.orig_is_file = pathlib.Path.is_file
        mode, rng = self.mode, self.rng
        if mode == "constant":
            random.randint = lambda a, b: a + 3
        elif mode == "tiny":
            random.randint = lambda a, b: min(b, a + rng.randrange(6))
        elif mode == "cycle":
            st = [0]

            def f(a, b):
                st[0] += 1
                return min(b, a + (st[0] // 3) % 8)
            random.randint = f
        return self

    def __exit__(self, *a):
        random.randint = self.orig
        pathlib.Path.is_file = self.orig_is_file


class Member:
    def __init__(self, a, v, file, lasy=False):
        self.a, self.v, self.file, self.lasy, self.dead = a, v, file, lasy, False


def check_all(m, pop, ctx):
    for i, e in enumerate(pop):
        if e.dead:
            continue
        got = gen.vec_of(e.a)
        m.check(got == e.v, "another operation changed an activation's vector", member=i, got=got, expected=e.v, file=e.file, **ctx)
    for n, b in CANARIES.items():
        p = env.TMP / n
        m.check(p.is_file() and p.read_bytes() == b, "a file that is no activation file was changed or removed", file=n, **ctx)
    check_aux(m, ctx)
    sub = env.TMP / "sub" / "ACTIVATION_VECTOR_1.txt"
    m.check(sub.is_file() and sub.read_bytes() == b"elsewhere", "a file of another directory was changed or removed", **ctx)


AUX_SEEN = {}


def check_aux(m, ctx):
    """Files the caller saved and supplied by path stay as they are."""
    now = env.snapshot(env.AUX)
    for n, b in AUX_SEEN.items():
        m.check(now.get(n) == b, "a file supplied by path was changed or removed", file=n, still_there=n in now, **ctx)
    AUX_SEEN.update(now)


def population_case(m, rng):
    AUX_SEEN.clear()
    for n, b in CANARIES.items():
        (env.TMP / n).write_bytes(b)
    (env.TMP / "sub").mkdir()
    (env.TMP / "sub" / "ACTIVATION_VECTOR_1.txt").write_bytes(b"elsewhere")
    env.apply_act_cfg(env.rand_act_cfg(rng, force_stat=rng.random() < 0.2))
    mode = rng.choice([None, "constant", "tiny", "cycle", "reseed", "reseed"])
    foreign = {}
    if rng.random() < 0.6:  # files of another process
        for k in rng.sample(range(8), 3):
            foreign[f"ACTIVATION_VECTOR_{k}.txt"] = b"another process %d" % k
            (env.TMP / f"ACTIVATION_VECTOR_{k}.txt").write_bytes(foreign[f"ACTIVATION_VECTOR_{k}.txt"])
    n = gen.length(rng, big=False)
    pop, trace, gone_for_good = [], [], []
    with Collide(rng, mode):
        for _ in range(rng.randint(4, 22)):
            alive = [e for e in pop if not e.dead]
            op = rng.choice(["create", "create", "create", "copy", "copy", "clear", "delete", "delete", "operate", "flags", "clean", "delete again"]
                            if alive else ["create"])
            if op == "clean" and rng.random() < 0.6:
                op = "create"
            if mode == "reseed" and rng.random() < 0.8:
                random.seed(rng.choice([0, 0, 1]))
            before = listing()
            trace.append(op)
            ctx = dict(trace=trace, collisions=mode)
            m.ev("op:" + op)
            if op == "create":
                v = gen.vector(rng, n)
                over = {} if rng.random() < 0.4 else dict(form="raw", to_file=True)
                a, f, kw = gen.activation(rng, v, **over)
                new = listing() - before
                m.check(len(new) <= 1, "creating one activation made several files", new=new, **ctx)
                m.check(not (before - listing()), "creating an activation removed files", gone=before - listing(), **ctx)
                pop.append(Member(a, v, next(iter(new), None), lasy=f == "path_lasy"))
                trace[-1] = ("create", f, kw.get("to_file"), bool(new))
            elif op == "copy":
                e = rng.choice(alive)
                c = copy(e.a)
                new = listing() - before
                m.check(len(new) <= 1 and not (before - listing()), "copying changed other files", new=new, gone=before - listing(), **ctx)
                pop.append(Member(c, list(e.v), next(iter(new), None)))
                trace[-1] = ("copy", pop.index(e))
            elif op == "clear":
                e = rng.choice(alive)
                e.a.clear()
                e.v = [0] * len(e.v)
                m.check(len(e.a) == len(e.v), "clear changed the length", got=len(e.a), **ctx)
                gone = before - listing()
                m.check(gone <= {e.file}, "clearing removed another file", gone=gone, own=e.file, **ctx)
                e.file, e.lasy = None, False
                trace[-1] = ("clear", pop.index(e))
            elif op == "delete":
                cand = [e for e in alive if not e.lasy]
                if not cand:
                    continue
                e = rng.choice(cand)
                e.a.delete()
                e.dead = True
                gone = before - listing()
                m.check(gone == ({e.file} if e.file else set()), "deleting did not remove exactly that activation's file", gone=gone,
                        own=e.file, **ctx)
                m.check(not (listing() - before), "deleting created files", **ctx)
                trace[-1] = ("delete", pop.index(e))
                if rng.random() < 0.3:
                    e.a.delete()  # again: harmless
                gone_for_good.append(e)
            elif op == "delete again":  # harmless even when another activation got the name of its file
                if not gone_for_good:
                    continue
                rng.choice(gone_for_good).a.delete()
                m.check(listing() == before, "deleting an activation a second time removed or made files", gone=before - listing(),
                        new=listing() - before, **ctx)
            elif op == "operate":
                x, y = rng.choice(alive), rng.choice(alive)
                f, g = rng.choice([(lambda p, q: p & q, ref.AND), (lambda p, q: p | q, ref.OR), (lambda p, q: p ^ q, ref.XOR),
                                   (lambda p, q: p - q, ref.SUB)])
                r = f(x.a, y.a)
                new = listing() - before
                pop.append(Member(r, g(x.v, y.v), next(iter(new), None)))
            elif op == "flags":
                env.apply_act_cfg(env.rand_act_cfg(rng, force_stat=rng.random() < 0.2))
            elif op == "clean":
                Activation.clean_files()
                left = {k for k in listing() if k.startswith("ACTIVATION_VECTOR_") and k.endswith(".txt")}
                m.check(not left, "clean_files left activation files", left=left, **ctx)
                m.check(before - listing() == {k for k in before if k.startswith("ACTIVATION_VECTOR_") and k.endswith(".txt")},
                        "clean_files removed other files", gone=before - listing(), **ctx)
                for e in pop:
                    if e.file:
                        e.dead = True
                foreign = {}
                pop = [e for e in pop if not e.dead]
            files = [e.file for e in pop if not e.dead and e.file]
            m.check(len(set(files)) == len(files), "two living activations share a file", files=files, **ctx)
            m.check(set(files) <= listing(), "the file of a living activation disappeared", missing=set(files) - listing(), **ctx)
            for k, b in foreign.items():
                m.check((env.TMP / k).read_bytes() == b, "a file of another process was overwritten", file=k, **ctx)
            check_all(m, pop, ctx)
            m.ev("steps monitored")
            m.ev("living vectors re-read", len([e for e in pop if not e.dead]))
            m.state(mode, len(files), op)
            if len(files) >= 2:
                m.nontrivial(str(trace), mode, n)
    m.sample(dict(collisions=mode, n=n, history=[str(t) for t in trace], foreign=sorted(foreign)))


def race_case(m, rng):
    """Another process creates the chosen file right after it was found free."""
    env.apply_act_cfg(env.rand_act_cfg(rng, force_stat=False))
    n = gen.length(rng, big=False)
    keep = []
    fired = [0]
    foreign = {}
    budget = [rng.choice([1, 1, 2, 5])]
    orig = pathlib.Path.is_file

    def is_file(self, *a, **k):
        r = orig(self, *a, **k)
        if not r and self.name.startswith("ACTIVATION_VECTOR_") and budget[0] > 0 and self.parent == env.TMP:
            budget[0] -= 1
            fired[0] += 1
            foreign[self] = b"from another process %d" % fired[0]
            self.write_bytes(foreign[self])
        return r
    pathlib.Path.is_file = is_file
    try:
        for _ in range(rng.randint(1, 4)):
            v = gen.vector(rng, n)
            a, f, kw = gen.activation(rng, v, form="raw", to_file=True)
            keep.append((a, v))
            if rng.random() < 0.3:
                budget[0] = 1
    finally:
        pathlib.Path.is_file = orig
    m.ev("races injected", fired[0])
    m.ev("race cases")
    for p, b in foreign.items():
        m.check(orig(p) and p.read_bytes() == b, "a file created meanwhile by another process was overwritten", file=p.name)
    for a, v in keep:
        m.check(gen.vec_of(a) == v, "vector lost in a race for a file name", got=gen.vec_of(a), expected=v)
    m.state("race", fired[0], len(keep))
    m.nontrivial("race", fired[0], [v for _, v in keep])


def fork_case(m, rng):
    """Forked processes with the same generator state write at the same time; each must keep its own vectors."""
    Activation.STORE_RAW = False
    n = rng.choice([5, 40, 300])
    k = 4
    vs = [[gen.vector(rng, n) for _ in range(12)] for _ in range(k)]
    r, w = os.pipe()
    start_r, start_w = os.pipe()
    pids = []
    state = random.getstate()
    for i in range(k):
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(start_w)
                os.read(start_r, 1)  # start together
                random.setstate(state)
                acts = [Activation(np.array(v, dtype=np.ubyte), to_file=True) for v in vs[i]]
                for _ in range(3):
                    for a, v in zip(acts, vs[i]):
                        if gen.vec_of(a) != v:
                            code = 1
                for a in acts[::2]:
                    a.delete()
                for a, v in list(zip(acts, vs[i]))[1::2]:
                    if gen.vec_of(a) != v:
                        code = 2
            except BaseException as e:  # noqa
                os.write(w, repr(e)[:200].encode() + b"\n")
                code = 3
            finally:
                os._exit(code)
        pids.append(pid)
    os.close(w)
    os.close(start_r)
    os.close(start_w)  # releases all
    codes = [os.waitstatus_to_exitcode(os.waitpid(p, 0)[1]) for p in pids]
    msg = os.read(r, 2000).decode(errors="replace")
    os.close(r)
    m.ev("forked processes", k)
    m.check(codes == [0] * k, "a process lost its vectors to another process writing at the same time", exit_codes=codes, messages=msg)
    m.state("fork", n)


def copies_case(m, rng):
    """Copies survive the original and vice versa, through rules too."""
    AUX_SEEN.clear()
    env.apply_act_cfg(env.rand_act_cfg(rng, force_stat=False))
    v = gen.vector(rng)
    a, f, kw = gen.activation(rng, v)
    c = copy(a)
    cc = copy(c)
    m.ev("copies", 2)
    for x in (a, c, cc):
        m.check(gen.vec_of(x) == v, "a copy holds another vector", got=gen.vec_of(x), expected=v, form=f, kw=kw)
        m.check(len(x) == len(v), "a copy has another length", form=f)
    check_aux(m, dict(form=f, kw=kw))
    order = [(a, "original"), (c, "copy"), (cc, "copy of copy")]
    rng.shuffle(order)
    for i, (x, who) in enumerate(order[:2]):
        if f == "path_lasy" and x is a:
            x.clear()
        elif rng.random() < 0.5:
            x.clear()
            m.check(gen.vec_of(x) == [0] * len(v), "clear is not all zeros", got=gen.vec_of(x))
        else:
            x.delete()
        check_aux(m, dict(form=f, kw=kw, who=who))
        for y, who2 in order[i + 1:]:
            m.check(gen.vec_of(y) == v, f"the {who2} did not survive the {who}", got=gen.vec_of(y), expected=v, form=f, kw=kw)
    m.state("copies", f, str(kw), order[0][1], order[1][1])
    m.nontrivial("copies", v, f, str(kw), [o[1] for o in order])


def dirs_case(m, rng):
    """The directory of activation files changes while activations live in the former one."""
    env.apply_act_cfg(env.rand_act_cfg(rng, force_stat=False))
    dirs = [env.TMP / "one", env.TMP / "two", env.TMP / "three"]
    for d in dirs:
        d.mkdir()
        (d / "notes.txt").write_bytes(b"keep me")
    n = gen.length(rng, big=False)
    pop, trace = [], []

    def files():
        return {p for d in dirs for p in d.iterdir()}
    for _ in range(rng.randint(5, 16)):
        d = rng.choice(dirs)
        Activation.DEFAULT_TEMPDIR = d
        if rng.random() < 0.6:
            random.seed(rng.choice([0, 0, 1]))  # the same names in every directory
        before = files()
        alive = [e for e in pop if not e.dead]
        op = rng.choice(["create", "create", "create", "copy", "delete", "clear", "operate", "clean"] if alive else ["create"])
        trace.append((op, d.name))
        ctx = dict(trace=trace)
        e = rng.choice(alive) if alive else None
        new_of = lambda: next(iter(files() - before), None)  # noqa: E731
        if op == "create":
            v = gen.vector(rng, n)
            a = Activation(np.array(v, dtype=np.ubyte), to_file=True, optimize=rng.random() < 0.5)
            pop.append(Member(a, v, new_of()))
        elif op == "copy":
            pop.append(Member(copy(e.a), list(e.v), new_of()))
        elif op == "operate":
            o = rng.choice(alive)
            pop.append(Member(e.a & o.a, ref.AND(e.v, o.v), new_of()))
        elif op == "clear":
            e.a.clear()
            e.v, e.file = [0] * n, None
        elif op == "delete":
            e.a.delete()
            e.dead = True
            gone = before - files()
            m.check(gone == ({e.file} if e.file else set()), "deleting did not remove exactly that activation's file",
                    gone=[str(x) for x in gone], own=str(e.file), **ctx)
        else:
            Activation.clean_files()
            gone = before - files()
            exp = {x for x in before if x.parent == d and x.name.startswith("ACTIVATION_VECTOR_")}
            m.check(gone == exp, "clean_files removed other files than the activation files of its directory", gone=[str(x) for x in gone],
                    expected=[str(x) for x in exp], **ctx)
            for x in pop:
                if x.file in gone:
                    x.dead = True
        own = [x.file for x in pop if not x.dead and x.file]
        m.check(len(set(own)) == len(own), "two living activations share a file", **ctx)
        for i, x in enumerate(pop):
            if not x.dead:
                m.check(gen.vec_of(x.a) == x.v, "an activation's vector was lost when the directory changed", member=i, got=gen.vec_of(x.a),
                        expected=x.v, file=str(x.file), **ctx)
        for q in dirs:
            m.check((q / "notes.txt").is_file(), "a file that is no activation file was removed", **ctx)
        m.ev("steps over several directories")
        m.state("dirs", op, len({x.parent for x in own}))
    m.nontrivial("dirs", str(trace), n)


SCENARIOS = {"dirs": (dirs_case, 300, 5000), "population": (population_case, 1000, 15000), "race": (race_case, 300, 4000), "fork": (fork_case, 48, 600),
             "copies": (copies_case, 1000, 15000)}
REQUIRED = {"steps monitored": 2000, "living vectors re-read": 5000, "race cases": 100, "forked processes": 40, "copies": 600,
            "op:clean": 20, "op:delete": 100, "op:delete again": 150, "steps over several directories": 800}
