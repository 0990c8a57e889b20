"""The downloader: every game linked from an index page is stored under its own id, exactly when it was received."""
import ast
import fnmatch
import os
from sa.dom import C, Lin, Term, Unsupported
from sa.objs import *
from sa.interp import PyRaise
from .base import Broken
from .train import regex, compiled, conc
from sa import nnmod

FILE = "data/scrape_data.py"
STUB = os.path.join(os.path.dirname(nnmod.STUBS), "sascrape")
RS = "a game is stored exactly when its download succeeded"
RF = "every linked game is requested once"
RN = "a game is stored under its own id, as received"
RO = "nothing else is requested or written"
RE = "a failed download does not end the run"
LINK = '<a href="http://tenhou.net/0/?log=%s">log</a>'
GID = ["2021010100gm-00a9-0000-%08x" % (7919 * i + 1) for i in range(12)]


def pages(variant):
    """Index pages: one or several links per page and line, other links, other files."""
    link = [LINK % g for g in GID]
    if variant == 0:
        return {"scc0.html": "10:00 | 12 | x | %s | a b<br>\n" % link[0]}
    if variant == 1:
        return {"scc0.html": "00:01 | %s | p<br>\r\n00:02 | <a href=\"http://tenhou.net/rule\">r</a> %s<br>\n" % (link[0], link[1]),
                "scc1.html": "<a class='x' href='http://tenhou.net/0/?log=%s'>y</a> | %s" % (GID[2], link[3]),
                "scc2.html.gz": link[4], "notes.txt": link[5]}
    if variant == 2:
        return {"scc0.html": "<a href=\"http://other.example/0/?log=%s\">no</a>\n<a href='/relative'>z</a>" % GID[6]}
    return {"scc0.html": "", "scc1.html": "\n".join(link[7:10])}


def wanted(ps):
    import re
    out = []
    for n, t in ps.items():
        if n.endswith(".html"):
            out += re.findall(r"http://tenhou\.net/0/\?log=([0-9a-z-]+)", t)
    return out


def check(c):
    from sa.interp import Interp
    path = None
    for root in c.interp().roots.values():
        p = os.path.join(root, FILE)
        if os.path.isfile(p):
            path = p
    if path is None:
        raise Broken("%s not found" % FILE)
    with open(path, encoding="utf-8") as f:
        tree = ast.parse(f.read(), path)

    I = c.interp()
    I.roots["sascrape"] = STUB
    N = I.natives
    N.setdefault("sat.event", lambda I, a, k: I.effect(*a))
    stub = I.load("sascrape")
    st = {}
    N["os.listdir"] = lambda I, a, k: OList(sorted(st["pages"])) if os.path.normpath(conc(a[0])) == st["dir"](conc(a[0])) else OList([])
    N["glob.glob"] = N["glob.iglob"] = lambda I, a, k: OList([os.path.join(os.path.dirname(conc(a[0])), f) for f in sorted(
        st["pages"]) if fnmatch.fnmatchcase(f, os.path.basename(conc(a[0])))])
    N["os.makedirs"] = N["os.mkdir"] = lambda I, a, k: None
    N["os.path.exists"] = lambda I, a, k: True if os.path.basename(conc(a[0])) in st["pages"] else False
    for n in ("os.replace", "os.rename", "shutil.move"):
        N[n] = lambda I, a, k: I.effect("publish", a[0], a[1])
    for n in ("search", "match", "fullmatch", "findall", "escape", "sub", "finditer", "split"):
        N["re." + n] = regex(n)
    N["re.compile"] = compiled
    for n in ("splitext", "basename", "dirname", "split", "normpath"):
        N["os.path." + n] = (lambda n: lambda I, a, k: getattr(os.path, n)(conc(a[0])))(n)
    for n in ("fnmatch.fnmatch", "fnmatch.fnmatchcase"):
        N[n] = lambda I, a, k: fnmatch.fnmatchcase(conc(a[0]), conc(a[1]))
    N["time.sleep"] = lambda I, a, k: None

    def opened(I, a, k):
        p = conc(a[0])
        mode = a[1] if len(a) > 1 else k.get("mode", "r")
        I.effect("open", p, mode)
        return I.call(stub.vars["File"], [p, mode], {})
    N["builtins.open"] = opened

    def read(I, a, k):
        b = os.path.basename(conc(a[0]))
        if b not in st["pages"]:
            raise Unsupported("reading %s" % a[0])
        return st["pages"][b]
    N["sat.read"] = read

    def get(I, a, k):
        u = conc(a[0] if a else k["url"])
        i = st["asked"].setdefault(u, len(st["asked"]))
        s = [200, 404, 503][C.choose(3, ("status", u))] if i < 4 else 200
        st["status"][u] = s
        I.effect("get", u)
        return I.call(stub.vars["Response"], [u, s], {})
    for n in ("ok", "OK", "okay"):
        I.ext_consts["requests.codes." + n] = 200
    N["requests.get"] = get

    def unknown(I, name, a, k):
        if name.split(".")[0] in ("time", "logging", "builtins", "sat"):
            return NotImplemented
        raise Unsupported("call of %s" % name)
    I.ext_call_hook = unknown
    N["requests.Session.get"] = get

    def go():
        v = C.choose(4, "index pages")
        st.update(pages=pages(v), dir=os.path.normpath, asked={}, status={})
        n0 = len(I.effects())
        m = ModuleVal("__main__", path, tree)
        m.vars["__name__"] = "__main__"
        I.stack.append((m.frame, tree))
        try:
            I.block(tree.body, m.frame)
        except PyRaise as e:
            c.fail(RE, FILE, "%s %s at %s" % (e.exc.cls.name, e.exc.attrs.get("args"), e.loc))
            return
        finally:
            I.stack.pop()
        c.ok(RE)
        eff = I.effects()[n0:]
        gets = [e[1] for e in eff if e[0] == "get"]
        want = wanted(st["pages"])
        url = {g: "https://tenhou.net/0/log/?" + g for g in want}
        tag = "index pages %s" % sorted(st["pages"])
        for g in want:
            c.ob(RF, gets.count(url[g]) == 1, tag, "game %s is requested %d times" % (g, gets.count(url[g])))
        extra = [u for u in gets if u not in url.values()]
        c.ob(RO, not extra, tag, "requests %s" % extra)
        final = {}
        for e in eff:
            if e[0] == "open" and set(str(e[2])) & set("wax+"):
                final[os.path.normpath(e[1])] = [str(e[2])]
            elif e[0] == "write":
                final.setdefault(os.path.normpath(e[1]), [str(e[2])]).append(e[3])
            elif e[0] == "publish":
                if os.path.normpath(e[1]) in final:
                    final[os.path.normpath(e[2])] = final.pop(os.path.normpath(e[1]))
        byid = {}
        for p, w in final.items():
            byid.setdefault(os.path.splitext(os.path.basename(p))[0], []).append((p, w))
        for g in want:
            got = byid.pop(g, [])
            ok = st["status"].get(url[g]) == 200
            c.ob(RS, bool(got) == ok, tag, "game %s was answered %s and is %sstored" % (
                g, st["status"].get(url[g]), "" if got else "not "))
            if got and ok:
                p, w = got[0]
                d = [x for x in w[1:]]
                good = len(got) == 1 and len(d) == 1 and "b" in w[0] and "w" in w[0] and isinstance(d[0], Term) \
                    and "body" in repr(d[0]) and url[g] in repr(d[0])
                c.ob(RN, good, tag, "%s opened %r holds %s" % (p, w[0], d))
        c.ob(RO, not byid, tag, "writes %s" % sorted(byid))
        dirs = {os.path.dirname(p) for p in final}
        c.ob(RN, len(dirs) <= 1, tag, "games are stored in %s" % sorted(dirs))
    c.explore(I, go)
    c.explain("The script is interpreted with its file system, the pages and the server replaced by contracts; every "
              "mix of answers (200, 404, 503) to the first four requests; the events are compared with the links.")
    for r in (RS, RF, RN, RE):
        c.require(r, 3)

