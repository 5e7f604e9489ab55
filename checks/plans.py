"""What each check does."""
import os

import mbt
from lib import VERIF, Name


def deep(run):
    return run.tier == "thorough"


def seq_jobs(run, prop, shards, n, secs, family="histories"):
    return [(family, "plain", ["seq", "-prop", prop, "-seed", str(run.seed * 1000 + i), "-n", str(n), "-secs", str(secs), "-tier", run.tier], "SeqTrace")
            for i in range(shards)]


def conc_jobs(run, prop, variant, shards, n, limit, secs=60, level=0, family="schedules", more=()):
    return [(family, variant, ["conc", "-prop", prop, "-seed", str(run.seed * 1000 + i), "-n", str(n), "-limit", str(limit), "-secs", str(secs),
                               "-level", str(level)] + list(more), "ConcTrace") for i in range(shards)]


def lock_jobs(run, prop, shards, n, limit):
    """Two locks for each block: nodes share locks all the time."""
    return conc_jobs(run, prop, "schedlock", shards, n, limit, family="shared locks", more=["-small"])


def q(run, quick, thorough):
    return thorough if deep(run) else quick


# ---------------------------------------------------------------- models of the design

ART_INVS = "LookupOK StrangerOK PrepareOK DeletableOK ExtremesOK IterationOK CountsOK ShapeOK".split()
CONC_INVS = "ContentOK ShapeOK HeldOK AnswersOK LocksOK RefusedOK".split()


def art(run, scripts="none", universes="MCUniverses", maxver=0, variant="", expect=None):
    return run.model("ART_MC", "data structure and algorithms (%s%s%s)" % (universes, ", values" if maxver else "", variant and ", mistake: " + variant),
                     dict(Universes=Name(universes), MaxVer=maxver, BatchSize=1, Variant=variant, Scripts=scripts), ART_INVS,
                     view="View", action="Cover", deadlock=False, expect=expect, workers=1)


def model_jobs(run, prop, limit=0):
    """Histories generated from the model of the data structure: one for each situation (thorough: for each pair of
    consecutive situations), with different real keys in each run."""
    def generate():
        out = art(run, q(run, "each", "pairs"))
        jobs = []
        for i in range(q(run, 1, 6)):
            names, n = mbt.files(out, prop, run.seed * 100 + i, 8, limit, os.path.join(run.dir, "mbt%d" % i))
            jobs += [("histories of the model", "plain", ["replay", "-in", x, "-seed", str(run.seed)], "SeqTrace") for x in names]
        run.notes["model_histories"] = n
        return jobs
    mistakes = {"C10": ("never shrink", "ShapeOK", "LargeUniverses"), "C02": ("root keeps byte", "LookupOK", "SmallUniverses"), "C01": ("drop child byte", "LookupOK", "SmallUniverses")}
    jobs = [generate]
    if prop in mistakes:
        jobs.append(lambda: art(run, universes=mistakes[prop][2], variant=mistakes[prop][0], expect=mistakes[prop][1]) and None)
    if prop == "C01":
        jobs.append(lambda: art(run, universes="SmallUniverses", maxver=1) and None)
    return jobs


def conc_model(run, family=1, todo="TwoWriters", inits="MCInits", nlocks=16, variant="", scenes=False, live=False, part=0, case=1, expect=None, workers=2, heap="4g"):
    label = "concurrent algorithms (%s, keys %d, contents %s, %d locks%s%s)" % (
        todo if todo != "CaseTodo" else "case %d" % case, family, part or "all", nlocks, ", liveness" if live else "", variant and ", mistake: " + variant)
    return run.model("ConcART_MC", label, dict(Keys=Name("MCKeys"), Inits=Name(inits), Todo=Name(todo), FullFrom=4, ShrinkAt=2, NLocks=nlocks, Variant=variant,
                                               Scenes=scenes, Family=family, Part=part, Case=case), CONC_INVS, ["Termination"] if live else [],
                     "MCFairSpec" if live else "MCSpec", "View", "Cover", expect=expect, workers=1 if scenes else workers, heap=heap, timeout=850)


def scene_jobs(run, family, todo="TwoWriters", limit=150, variants=("schedmid",), parts=(1, 2, 3, 4), real=1):
    """Scenes generated from the concurrent model, one for each kind of conflict: explored in the real code."""
    def gen(part):
        def generate():
            out = conc_model(run, family, todo, part=part, scenes=True)
            jobs = []
            for v in variants:
                for i in range(real):
                    names, n = mbt.scene_files(out, run.seed * 1000 + part * 10 + i, 4, 0, os.path.join(run.dir, "sc%s%d%s%d%d" % (v, family, todo, part, i)),
                                                small=v == "schedlock")
                    jobs += [("scenes of the model", v, ["scenes", "-in", x, "-seed", str(run.seed + i), "-limit", str(limit)], "ConcTrace") for x in names]
            with run.lock:
                run.notes["model_scenes"] = run.notes.get("model_scenes", 0) + n
            return jobs
        return generate
    return [gen(p) for p in parts]


CASES = [("root not checked", 1, "HeldOK"), ("pointer not verified", 2, "HeldOK"), ("parent not verified", 3, "ContentOK"), ("child not locked", 3, "ContentOK"),
         ("parent not locked", 4, "ContentOK"), ("delete256 not locked", 5, "HeldOK"), ("shared lock not compared", 6, "ContentOK"),
         ("generation not compared", 7, "HeldOK"), ("failed lock not undone", 8, "LocksOK")]


def mistake_jobs(run, which):
    """The concurrent model with a safeguard missing."""
    return [lambda c=c: conc_model(run, family=3 if c[1] == 5 else 1, todo="CaseTodo", inits="CaseInits", nlocks=2 if c[1] == 6 else 16, variant=c[0], case=c[1],
                                   expect=c[2]) and None for c in CASES if c[0] in which]


def epoch(run, readers, writers, reads, changes, limit=1, variant="", expect=None, workers=2):
    return run.model("Epoch", "reuse of memory (%d readers, %d writers, %d changes each%s)" % (len(readers), len(writers), changes, variant and ", mistake: " + variant),
                     dict(Readers=readers, Writers=writers, Reads=reads, Changes=changes, Limit=limit, Cells=8 + 3 * changes * len(writers), Variant=variant),
                     ["ReadersOK", "ListsOK", "NoLoss", "Bounded"], expect=expect, workers=workers, heap="5g", timeout=850) and None


def pool(run, family, na=2, variant="", expect=None):
    return run.model("Pool_MC", "sharing of allocators (programs %d, %d allocators%s)" % (family, na, variant and ", mistake: " + variant),
                     dict(NA=na, Programs=Name("MCPrograms"), Family=family, Variant=variant), ["AloneOK", "TakenOK", "StoppedOK", "CountOK"], ["Termination"], "FairSpec",
                     expect=expect, workers=2) and None


def persist(run, b=3, na=2, keys=(1, 2), changes=4, loads=1, variant="", expect=None, workers=2):
    return run.model("Persist", "blocks and saved states (%d allocators, %d items, %d changes, %d loads%s)" % (na, len(keys), changes, loads, variant and ", mistake: " + variant),
                     dict(B=b, NA=na, Keys=set(keys), Changes=changes, Loads=loads, Variant=variant), "NotBad ContentOK LenOK FreeOK ZeroOK SavedOK CutOK".split(),
                     deadlock=False, expect=expect, workers=workers, heap="5g", timeout=850) and None


def iterations(run, changes, universes="MCUniverses", scripts="none", variant="", expect=None, workers=1):
    return run.model("IterART_MC", "iteration in batches (%s, %d changes%s)" % (universes, changes, variant and ", mistake: " + variant),
                     dict(Universes=Name(universes), MaxVer=0, BatchSize=1, Variant="", Scripts=scripts, MaxChanges=changes, IterVariant=variant),
                     ["IterOKInv", "ExactOK"], init="ISpec", view="IView", action="Emits", deadlock=False, expect=expect, workers=workers, heap="4g")


def iter_jobs(run):
    """Histories of the model of iteration, replayed with a code that reads two items at a time."""
    def generate():
        out = iterations(run, q(run, 1, 2), scripts="each")
        jobs = []
        for i in range(q(run, 2, 8)):
            names, n = mbt.iter_files(out, run.seed * 100 + i, 4, os.path.join(run.dir, "it%d" % i))
            jobs += [("iterations of the model", "batch", ["replay", "-in", x, "-seed", str(run.seed)], "SeqTrace") for x in names]
        run.notes["model_iterations"] = n
        return jobs
    jobs = [generate, lambda: iterations(run, 1, "SmallUniverses", variant="always from the start", expect="IterOKInv") and None,
            lambda: iterations(run, 1, "SmallUniverses", variant="skips the child", expect="IterOKInv") and None]
    if deep(run):
        jobs.append(lambda: iterations(run, 3, workers=4) and None)
    return jobs


# ---------------------------------------------------------------- the checks

def c01(run):
    run.jobs(model_jobs(run, "C01") + seq_jobs(run, "C01", q(run, 8, 64), 60, 60))


def c02(run):
    run.jobs(model_jobs(run, "C02") + seq_jobs(run, "C02", q(run, 8, 64), 60, 60) + conc_jobs(run, "C02", "schedmid", q(run, 4, 32), 20, 150))


def c03(run):
    more = []
    if deep(run):
        more = (scene_jobs(run, 1, limit=400, variants=("schedmid", "sched"), real=3) + scene_jobs(run, 3, limit=400, real=3)
                + [lambda p=p: conc_model(run, 2, "ThreeWriters", part=p, workers=3, heap="6g") and None for p in (1, 2, 3, 4)])
    run.jobs(scene_jobs(run, 2, limit=q(run, 150, 600), real=q(run, 1, 4)) + scene_jobs(run, 1, "WriterReader", limit=q(run, 100, 400), parts=(0,))
             + mistake_jobs(run, ["root not checked", "pointer not verified", "generation not compared", "parent not locked"]) + more
             + conc_jobs(run, "C03", "schedmid", q(run, 12, 64), q(run, 20, 60), 200) + conc_jobs(run, "C03", "sched", q(run, 4, 32), 20, 200)
             + lock_jobs(run, "C03", q(run, 4, 32), 20, 200) + conc_jobs(run, "C03", "schedbig", q(run, 2, 8), 10, 100))


def c04(run):
    run.jobs(scene_jobs(run, 3, limit=q(run, 120, 500), variants=q(run, ("schedmid",), ("schedmid", "sched")), real=q(run, 1, 4), parts=(1, 2, 3, 4))
             + mistake_jobs(run, ["parent not verified", "child not locked", "delete256 not locked", "shared lock not compared"])
             + (scene_jobs(run, 1, limit=400, real=3) + [lambda: conc_model(run, 1, nlocks=3, workers=4, heap="6g") and None] if deep(run) else [])
             + conc_jobs(run, "C04", "schedmid", q(run, 12, 64), q(run, 20, 60), 200) + lock_jobs(run, "C04", q(run, 6, 32), 20, 200))


def c05(run):
    run.jobs(model_jobs(run, "C05") + scene_jobs(run, 2, limit=q(run, 100, 500), variants=("schedlock",), real=q(run, 1, 4), parts=q(run, (1, 3), (1, 2, 3, 4)))
             + mistake_jobs(run, ["failed lock not undone"]) + [lambda: conc_model(run, 2, live=True, nlocks=2) and None]
             + ([lambda: conc_model(run, 1, live=True, nlocks=3, workers=4, heap="6g") and None] if deep(run) else [])
             + seq_jobs(run, "C05", q(run, 8, 64), 40, 60) + conc_jobs(run, "C05", "schedmid", q(run, 8, 64), 20, 150)
             + conc_jobs(run, "C05", "sched", q(run, 4, 32), 20, 150))


def c06(run):
    run.jobs(model_jobs(run, "C06") + seq_jobs(run, "C06", q(run, 8, 64), 40, 60))


def c07(run):
    run.jobs(known(run, "plain", "C07-collapse.json") + iter_jobs(run) + conc_jobs(run, "C07", "schedbatch", q(run, 6, 32), q(run, 15, 60), 150) + seq_jobs(run, "C07", q(run, 8, 64), 8, 100, "changes between steps") + conc_jobs(run, "C07", "schedmid", q(run, 12, 64), q(run, 20, 60), 200))


def c08(run):
    run.jobs(model_jobs(run, "C08") + seq_jobs(run, "C08", q(run, 8, 64), 40, 60) + conc_jobs(run, "C08", "schedmid", q(run, 8, 64), q(run, 20, 60), 200))


def c09(run):
    run.jobs(model_jobs(run, "C09") + [lambda: pool(run, 3), lambda: pool(run, 3, variant="added in two steps", expect="CountOK"),
                                       lambda: pool(run, 3, variant="len does not wait", expect="CountOK")] + seq_jobs(run, "C09", q(run, 8, 64), 40, 60) + conc_jobs(run, "C09", "schedmid", q(run, 8, 64), q(run, 20, 60), 200))


def c10(run):
    oracle = lambda: run.model("MapOpsTest", "the shape of the tree, computed in two ways", invs=["LegalOK", "AgreeOK"], deadlock=False) and None
    run.jobs([oracle] + model_jobs(run, "C10") + seq_jobs(run, "C10", q(run, 8, 64), 25, 60) + conc_jobs(run, "C10", "schedmid", q(run, 8, 64), q(run, 20, 60), 100))


def c11(run):
    mistakes = ["reserved late", "not reserved", "ended early", "reused in the same epoch", "epoch before the end"]
    models = [lambda v=v: epoch(run, {1}, {2, 3}, 1, 2, variant=v, expect="ReadersOK") for v in mistakes] + [lambda: epoch(run, {1}, {2}, 2, 4)]
    if deep(run):
        models += [lambda: epoch(run, {1}, {2, 3}, 1, 2, workers=4), lambda: epoch(run, {1, 2}, {3}, 1, 4, workers=4), lambda: epoch(run, {1}, {2}, 2, 7, limit=2, workers=4)]
    run.jobs(models + conc_jobs(run, "C11", "schedmid", q(run, 8, 64), q(run, 14, 60), 200)
             + conc_jobs(run, "C11e", "schedmid", q(run, 8, 64), q(run, 40, 100), q(run, 150, 400), family="epochs advance in between") + conc_jobs(run, "C11", "stmt", q(run, 8, 64), q(run, 14, 20), 200))


def known(run, variant, name):
    """A history that shows a listed finding."""
    return [("known finding", variant, ["replay", "-in", os.path.join(VERIF, "checks", "known", name)], "SeqTrace")]


def small_jobs(run, prop, variant, shards, n, secs, family):
    return [(family, variant, ["seq", "-prop", prop, "-seed", str(run.seed * 1000 + i), "-n", str(n), "-secs", str(secs), "-tier", run.tier], "SeqTrace")
            for i in range(shards)]


def c12(run):
    models = [lambda n=n: epoch(run, set(), {1}, 1, q(run, 7, 12), limit=n) for n in (1, 2, 3)] + [lambda: epoch(run, set(), {1}, 1, 7, variant="epochs never end", expect="Bounded")]
    run.jobs(models + small_jobs(run, "C12", "small", q(run, 8, 48), 60, 90, "cyclic histories") + known(run, "small", "C12-crossed.json"))


def c13(run):
    models = [lambda v=v: persist(run, variant=v[0], expect=v[1]) for v in
              [("block handed out not counted", "SavedOK"), ("counts of allocators not saved", "SavedOK"), ("empty allocator loaded as used", "NotBad"),
               ("position not loaded", "ContentOK"), ("blocks made again", "ContentOK")]]
    models.append(lambda: persist(run, changes=q(run, 3, 4), loads=q(run, 1, 2)))
    if deep(run):
        models += [lambda: persist(run, keys=(1, 2, 3), loads=2, workers=4), lambda: persist(run, na=1, keys=(1, 2, 3), changes=7, loads=2, workers=4)]
    run.jobs(models + small_jobs(run, "C13", "small", q(run, 8, 64), q(run, 40, 100), 60, "saving and loading")
             + small_jobs(run, "C13m", "hold", q(run, 8, 64), q(run, 40, 100), 60, "moments of the block allocator"))


def c14(run):
    models = [lambda v=v: persist(run, variant=v, expect="CutOK") for v in ("sections not counted", "blocks not counted")]
    models.append(lambda: persist(run, na=q(run, 2, 3), changes=q(run, 3, 4)))
    run.jobs(models + small_jobs(run, "C14", "small", q(run, 8, 64), q(run, 60, 200), 60, "cut and failing states"))


def c15(run):
    models = [lambda f=f: pool(run, f) for f in (1, 2, 3, 4)]
    models += [lambda v=v: pool(run, v[1], variant=v[0], expect=v[2]) for v in
               [("no lock", 3, "Termination"), ("no lock", 4, "TakenOK"), ("taken without looking again", 3, "AloneOK"), ("len starts", 4, "StoppedOK")]]
    if deep(run):
        models += [lambda f=f: pool(run, f, na=3) for f in (1, 2, 4)]
    run.jobs(models + [("allocators, stopping and starting", "sched", ["conc", "-prop", "C15", "-seed", str(run.seed * 1000 + i), "-n", str(q(run, 60, 200)),
                        "-limit", str(q(run, 150, 300)), "-secs", "60"], "PoolTrace") for i in range(q(run, 8, 64))])


def c16(run):
    run.jobs(seq_jobs(run, "C16", q(run, 8, 64), 60, 60, "diagnostics") + conc_jobs(run, "C16", "schedmid", q(run, 8, 64), 20, 150, family="diagnostics during changes"))


def c17(run):
    run.jobs([lambda: conc_model(run, 2, live=True, nlocks=2) and None, lambda: conc_model(run, 1, live=True, part=q(run, 1, 0), nlocks=16) and None]
             + conc_jobs(run, "C17", "schedmid", q(run, 8, 64), 20, 200) + conc_jobs(run, "C17", "sched", q(run, 4, 32), 20, 200) + lock_jobs(run, "C17", q(run, 6, 32), 20, 200))


def c18(run):
    run.jobs(seq_jobs(run, "C18", q(run, 8, 64), 40, 60, "slices lent") + small_jobs(run, "C18", "batch", q(run, 4, 32), 40, 60, "slices lent, small batches")
             + conc_jobs(run, "C18", "schedmid", q(run, 6, 32), 20, 150, family="slices lent, schedules"))


def c19(run):
    run.jobs(seq_jobs(run, "C19", q(run, 8, 64), 30, 60, "several trees") + small_jobs(run, "C19", "batch", q(run, 4, 32), 30, 60, "several trees, small batches"))


PLANS = {k.upper(): v for k, v in globals().items() if len(k) == 3 and k[0] == "c" and k[1:].isdigit()}
