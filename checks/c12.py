"""C12: a Usenet batch loses no NZB and terminates."""
import os
import random

from sim import core, fixtures as F
from sim.common import W, cli, result, violation
from checks import c11
from checks.c11 import (KINDS, REAL, STUB, ASSUMPTIONS, OUT,  # noqa
                        program, usable)

BUDGET = {"quick": (170, 7, 100), "thorough": (4000, 25, 2400)}
SITE_WEIGHTS = {"reply": 10, "connect": 6, "write": 1, "creat": 2,
                "rename": 3, "mkdir": 2}
RULE = ("A run gives the tool 2-4 NZB files (complete, incomplete, repack, "
        "corrupt or empty, some with a result or an equally named NZB of an "
        "earlier run) as files or as a folder and lets it work with 1-3 news "
        "servers, with 0-3 network faults or disk errors; non-trivial when "
        "an NZB was moved or a fault fired.")
FOLDERS = ("success", "bad", "repacks", "5xxerror", "failure",
           "serverfailure", "unknownerror")
REQUESTS = 6000                 # per NZB, a multiple of what is ever needed
DIRS = [W + "/nzb", W + "/nzb", W + "/nzb", W + "/[nzb] 2009"]


def plan(rng, tier):
    scn = c11.plan(rng, tier, posts=rng.choice([2, 2, 3, 4]))
    for p in scn["posts"]:      # small, and more of them that fail
        p["segsize"] = max(p["segsize"], 1000)
        if rng.random() < .3:
            p["bad"] = rng.choice(["trunc", "garbage", "repack", "nzb",
                                   "emptynzb"])
        elif rng.random() < .3:
            p["gone"] = rng.choice(["article", "file", "seg1", "seg1", "nfo",
                                    "segnzb"])
            if p["gone"] in ("article", "seg1") and rng.random() < .7:
                p["dup"] = None
    scn["old"] = [rng.choice([None] * 4 + ["srr", "success", "bad", "all"])
                  for _ in scn["posts"]]
    scn["dir"] = rng.choice(DIRS)
    scn["stray"] = rng.random() < .3
    scn["knobs"]["max_steps"] = 150000
    return scn


def shrink(scn):
    if len(scn["posts"]) > 1:
        for i in range(len(scn["posts"])):
            yield dict(scn, posts=scn["posts"][:i] + scn["posts"][i + 1:],
                       old=scn["old"][:i] + scn["old"][i + 1:])
    if any(scn["old"]):
        for i, o in enumerate(scn["old"]):
            if o:
                yield dict(scn, old=scn["old"][:i] + [None]
                           + scn["old"][i + 1:])
    for k, v in (("dir", DIRS[0]), ("stray", False)):
        if scn[k] != v:
            yield dict(scn, **{k: v})
    for s in c11.shrink(dict(scn, old=False)):
        if len(s["posts"]) == len(scn["posts"]):
            yield dict(s, old=scn["old"])


def outcome(tree, d, post, fresh):
    """where the NZB is -> list of folders ("" where it was)"""
    found = []
    for f in ("",) + FOLDERS:
        p = "/".join(x for x in (d, f, post.name + ".nzb") if x)
        if p in fresh and tree.get(p) == fresh[p]:
            continue            # of an earlier run
        if p in tree:
            found.append((f, tree[p]))
    return found


def run(scn):
    d = scn["dir"]
    sim, n, posts = c11.start(scn, d)
    fs = sim.fs
    op = scn["op"]
    out = OUT if op["out"] else d
    earlier = {}
    for p, o in zip(posts, scn["old"]):
        old = b"an earlier NZB of " + p.name.encode()
        if o in ("srr", "all"):
            fs.put("%s/%s.srr" % (out, p.name), F.srr_header("old"))
        for f in FOLDERS:
            if o in (f, "all"):
                earlier["%s/%s/%s.nzb" % (d, f, p.name)] = old
    for p in earlier:
        fs.put(p, earlier[p])
    argv = c11.arguments(scn, posts, d)
    if scn["stray"]:
        fs.put(d + "/readme.txt", b"not an NZB")
        argv.insert(len(argv) - 1, W + "/nothing.nzb")
    disk = fs.tree(W)
    with core.running(sim):
        r = cli(sim, program, argv, prog=W + "/srr_usenet.py")
    tree = fs.tree(W)
    real = [f for f in sim.fired if f[0] not in ("SHORT", "SLOW")]
    where = "(%r)%s" % (r, " after " + ", ".join(
        "%s@%s %s" % (f[0], f[1], f[4]) for f in real) if real else "")
    tail = "\n" + r.out[-1500:] + r.tb[-700:]
    sticky = any(f.get("sticky") for f in scn["faults"])
    net = all(f[1] in ("connect", "reply") for f in real)
    kb = any(f[0] == "KBINT" for f in real)
    # which NZB was worked on at each moment
    names = {"%s/%s.nzb" % (d, p.name): p for p in posts}
    opened = [(q[1], names[q[3]]) for q in sim.points
              if q[2] == "open" and q[3] in names]
    seen = set(p.name for _, p in opened)
    hit = set()
    for f in real:
        w = [p for k, p in opened if k <= f[3]]
        # it connects before it opens the NZB
        nxt = [p for k, p in opened if k > f[3]]
        hit.update(p.name for p in w[-1:] + nxt[:1])
    bad, probes = None, {}

    def claim(cls, text):
        nonlocal bad
        if bad is None:
            bad = (cls, text)

    if r.kind == "steps" or n.requests > REQUESTS * len(posts):
        claim("no-termination", "%d requests" % n.requests)
    if r.kind == "exc" and net:
        claim("unexpected-error", "")
    for p in earlier:
        if tree.get(p) != earlier[p]:
            claim("earlier-nzb-lost", p)
    moved = False
    unseen = len([p for p in posts if p.name not in seen])
    for p, o in zip(posts, scn["old"]):
        found = outcome(tree, d, p, earlier)
        if len(found) != 1:
            claim("nzb-lost" if not found else "nzb-twice",
                  "%s %s" % (p.name, [f for f, _ in found]))
            continue
        f, data = found[0]
        probes[f or "in_place"] = probes.get(f or "in_place", 0) + 1
        if data != p.nzb:
            claim("nzb-changed", p.name)
        moved = moved or f
        if f and op["dry"]:
            claim("dry-run-moves", "%s to %s" % (p.name, f))
        srr = "%s/%s.srr" % (out, p.name)
        alt = "%s/srr_no_sfv/%s.srr" % (out, p.name)
        made = [q for q in (srr, alt) if q in tree and tree[q] !=
                disk.get(q)]
        if srr in disk and srr not in tree:
            claim("old-result-lost", srr)
        if len(made) > 1:
            claim("two-results", " ".join(made))
        doubt = p.p["bad"] in ("nzb",) or (
            p.nosfv and p.p["gone"] == "file") or any(
            p.unchecked(w.split("<")[-1][:-1]) for w in n.flipped)
        if f == "success" and not made:
            claim("success-without-srr", p.name)
        for q in made:
            e, lack = p.judge(tree[q], real)
            if e and not doubt:
                claim("wrong-srr", "%s: %s" % (q, e))
        blocked = o in ("success", "bad", "all")
        if made and f != "success" and net and not kb and not blocked:
            claim("made-but-not-success", "%s in %r" % (p.name, f))
        if f == "unknownerror" and net and not p.broken and \
                p.p["bad"] != "nzb" and not n.flipped and not [
                    g for g in real if g[0] == "CUT" or "QUIT" in g[4]]:
            claim("network-failure-unknown", p.name)
        if net and not kb and r.kind != "steps":
            if unseen > len(real) and not sticky and usable(scn):
                claim("not-processed", p.name)
            free = p.name in seen and p.name not in hit and not sticky
            if free and usable(scn) and not op["dry"] and not blocked:
                want = None
                if p.nosfv and p.p["gone"] == "file":
                    pass
                elif p.broken:
                    want = FOLDERS[1:]
                elif p.isrepack and not (p.p["gone"] in ("seg1", "segnzb")):
                    want = ("repacks",)
                elif p.p["bad"] is None and p.p["gone"] is None:
                    want = ("success",)
                elif p.p["bad"] == "emptynzb":
                    want = ("bad",)
                elif p.p["gone"] == "file" and not (p.nosfv or p.p["bad"]):
                    want = ("bad",)
                elif p.p["bad"] is None and p.p["gone"] in (
                        "article", "seg1") and p.p["dup"] is None:
                    # perhaps it is not needed
                    want = ("success", "bad", "serverfailure")
                if want and f not in want:
                    claim("wrong-folder", "%s in %r, expected %s" % (
                        p.name, f, "/".join(want)))
    for q in tree:
        if q not in disk and not q.endswith((".nzb", ".srr")) and not [
                f for f in real if f[1] == "unlink"]:
            claim("litter", q)
    for q in disk:
        if not q.endswith((".nzb", ".srr")) and tree.get(q) != disk[q]:
            claim("other-file-changed", q)
    if op["dry"] and net and tree != disk:
        claim("dry-run-writes", "")
    probes["requests"] = n.requests
    vs = [violation(bad[0], "%s %s%s" % (bad[1], where, tail))] if bad else []
    return result(sim, vs, nontrivial=bool(moved) or bool(sim.fired),
                  probes=probes)
