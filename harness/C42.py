#!/usr/bin/env python3
"""C42: the drawing exporter (draw/netexport.py) against a model of what the drawing says.

Generated drawings -> exported C++ is read back (comments dropped, white space folded) and compared with
the network the drawing describes; broken drawings must be refused.  Facets: export, refuse, simulate."""
import warnings
warnings.simplefilter("ignore")
import base64, concurrent.futures, hashlib, importlib.util, io, json, multiprocessing, os, random, re, shutil, signal, sys, tempfile, time, traceback, zlib
import urllib.parse
import xml.etree.ElementTree as ET
from xml.sax.saxutils import quoteattr

sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
DRAW = os.path.join(REPO, "draw")
SCRIPT = os.path.join(DRAW, "netexport.py")
PID = "C42"

class Violation(Exception):
    def __init__(self, tag, msg):
        Exception.__init__(self, tag + ": " + msg)
        self.tag, self.msg = tag, msg

class Choices:
    """Recorded choices: a case is the list of integers it drew, so that it can be replayed and shrunk."""
    def __init__(self, seed=None, data=None):
        self.rng = random.Random(seed) if data is None else None
        self.data, self.pos = (list(data) if data is not None else []), 0
        self.labels, self.nontrivial = set(), False
    def i(self, lo, hi):
        if hi < lo:
            hi = lo
        if self.rng is not None:
            v = self.rng.randint(lo, hi) - lo
            self.data.append(v)
        else:
            v = self.data[self.pos] if self.pos < len(self.data) else 0
            self.pos += 1
            v = v % (hi - lo + 1)
        return lo + v
    def b(self, p):
        return self.i(0, 999) >= 1000 - int(round(p * 1000))
    def of(self, seq):
        return seq[self.i(0, len(seq) - 1)]
    def shuffle(self, seq):
        for k in range(len(seq) - 1, 0, -1):
            j = k - self.i(0, k)
            seq[k], seq[j] = seq[j], seq[k]
    def label(self, s):
        self.labels.add(s)

# ------------------------------------------------------------------ shape masters, read independently
def inflate(s):
    return urllib.parse.unquote(zlib.decompress(base64.b64decode(s), -15).decode())

def deflate(s):
    z = zlib.compressobj(9, zlib.DEFLATED, -15)
    return base64.b64encode(z.compress(urllib.parse.quote(s, safe="~()*!.'").encode()) + z.flush()).decode()

def masters():
    links, spotters, types = [], [], set()
    for f in sorted(os.listdir(os.path.join(DRAW, "libraries"))):
        t = open(os.path.join(DRAW, "libraries", f)).read()
        for shape in json.loads(t[len("<mxlibrary>"):-len("</mxlibrary>")]):
            x = shape["xml"]
            if "mxGraphModel" not in x:
                x = inflate(x)
            elif "&gt;" in x and "&lt;" in x:
                x = x.replace("&gt;", ">").replace("&lt;", "<").replace("&amp;#xa;", "")
            obs = ET.fromstring(x).findall("./root/object")
            if len(obs) != 1 or obs[0].find("gunns") is None:
                continue
            o, g = obs[0], obs[0].find("gunns").attrib
            types.add((g["type"], g.get("subtype")))
            m = dict(attr=dict(o.attrib), gunns=dict(g), lib=f, vec=[(d.attrib["source"], d.attrib["target"]) for d in o.findall("gunnsShapeData")])
            if g["type"] == "Link" and g.get("subtype"):
                links.append(m)
            elif g["type"] == "Spotter":
                spotters.append(m)
    return links, spotters

DATA = re.compile(r"^[ci][0-9]+\.")
def data_of(m):
    return sorted((k, v) for k, v in m["attr"].items() if re.match(r"^[ci][0-9]", k))

def fluid_class(sub):
    c = sub.split("/")[-1]
    return c.startswith(("GunnsFluid", "GunnsGas", "GunnsLiquid"))

LINKS, SPOTTERS = [], []
def load_masters():
    global LINKS, SPOTTERS
    if LINKS:
        return
    LINKS, SPOTTERS = masters()
    seen, out = set(), []
    for m in LINKS:      # the first master of a class and variant is the one that counts
        k = (m["gunns"]["subtype"], m["gunns"].get("variant", ""))
        if k not in seen and m["gunns"].get("numPorts", "").isdigit() and m["gunns"].get("reqPorts"):
            seen.add(k)
            out.append(m)
    LINKS[:] = out

# ------------------------------------------------------------------ the drawing
class El:
    def __init__(self, tag, attr, kids=(), text=None):
        self.tag, self.attr, self.kids = tag, attr, list(kids)
    def xml(self, ind=""):
        a = "".join(" %s=%s" % (k, quoteattr(v)) for k, v in self.attr.items())
        if not self.kids:
            return "%s<%s%s/>\n" % (ind, self.tag, a)
        return "%s<%s%s>\n%s%s</%s>\n" % (ind, self.tag, a, "".join(k.xml(ind + "  ") for k in self.kids), ind, self.tag)

STYLES = ["shape=rect;html=1;", "shape=ellipse;fillColor=#FFFFFF;strokeColor=#0000FF;fontColor=#FF0000;", "shape=image;strokeColor=none;", "rounded=0;fontColor=default;fillColor=#A0B1C2;",
          "shape=mxgraph.basic.rounded_frame;fillColor=#00FF00;"]
WORDS = ["flow", "gain", "press", "temp", "k", "flag", "value", "limit", "rate", "area"]

class Drawing:
    """A generated drawing and the network it describes."""
    def __init__(self, c, fluid):
        self.c, self.fluid, self.next = c, fluid, 1
        self.els, self.info = [], {}
    def id(self):
        self.next += 1
        return "el%d" % self.next if self.next % 3 else "Zx-%d" % self.next
    def cell(self, parent, **kw):
        a = {"style": self.c.of(STYLES), "parent": parent}
        a.update(kw)
        return El("mxCell", a, [El("mxGeometry", {"as": "geometry", "height": "20", "width": "30"})])
    def obj(self, label, about, gunns, parent, attr=(), cellkw=None, vec=(), id=None):
        i = id or self.id()
        a = [("About", about), ("id", i), ("label", label)] + list(attr)
        self.c.shuffle(a)
        e = El("object", dict(a), [El("gunns", gunns)] + [El("gunnsShapeData", {"source": s, "target": t}) for s, t in vec] + [self.cell(parent, **(cellkw or {"vertex": "1"}))])
        self.els.append(e)
        return e, i
    def rows1(self, owner, values):
        for v in values:
            self.els.append(El("mxCell", {"id": self.id(), "parent": owner, "style": self.c.of(STYLES), "value": v, "vertex": "1"}, [El("mxGeometry", {"as": "geometry"})]))
    def rows2(self, owner, pairs):
        """y cells hold the value, the x cell inside each holds the name."""
        for x, y in pairs:
            yi = self.id()
            self.els.append(El("mxCell", {"id": yi, "parent": owner, "style": self.c.of(STYLES), "value": y, "vertex": "1"}, [El("mxGeometry", {"as": "geometry"})]))
            self.els.append(El("mxCell", {"id": self.id(), "parent": yi, "style": self.c.of(STYLES), "value": x, "vertex": "1"}, [El("mxGeometry", {"as": "geometry"})]))
    def text(self, form):
        head = [El("mxCell", {"id": "0"}), El("mxCell", {"id": "1", "parent": "0"})]
        model = El("mxGraphModel", {"dx": "1", "dy": "2", "grid": "1"}, [El("root", {}, head + self.els)]).xml()
        if form == 0:
            return model
        if form == 1:
            return '<mxfile host="x"><diagram id="d" name="Page-1">\n%s</diagram></mxfile>' % model
        return '<mxfile host="x" compressed="true"><diagram id="d" name="Page-1">%s</diagram></mxfile>' % deflate(model)

def number(c):
    return c.of(["0.0", "1.0", "2.5e-3", "-4", "true", "false", "someTable", "&netConfig.other", "Enum::VALUE", "17", "1.0 + 2.0", "foo(1, 2)"])

def vector_value(c):
    return "{" + ", ".join(c.of(["1.0", "0.25", "7", '"a"', "Enum::X"]) for _ in range(c.i(1, 4))) + "}"

def shape_attrs(c, m, info_label):
    """Attributes as drawn and the ones the exporter must end up using (the master decides which exist)."""
    want, drawn, moved = [], {}, False
    vec = {s: t for s, t in m["vec"]}
    names = [k for k, _ in data_of(m)]
    terms = [k.split(".", 1)[1] if "." in k else k for k in names]
    spare = 60
    for (k, default), term in zip(data_of(m), terms):
        isvec = vec.get(k.split(".")[0], "").startswith("vector*")
        v = vector_value(c) if isvec else number(c)
        how = c.i(0, 19)
        unique = terms.count(term) == 1
        if how == 19:                      # not in this old drawing: the master's value comes in
            v = default
            c.label("datum added")
        elif how == 18 and unique and "." in k:   # drawn under an old number
            drawn["%s%02d.%s" % (k[0], spare, term)] = v
            spare += 1
            c.label("datum renumbered")
        else:
            drawn[k] = v
        want.append((k, v))
    if c.b(0.08):
        drawn["c95.zzObsolete%d" % c.i(0, 9)] = "9.9"
        c.label("obsolete datum")
    return drawn, want

def args_of(want, kind):
    return [("0" if v.startswith("{") and v.endswith("}") else v) for k, v in sorted(want) if k[0] == kind]

def vec_blocks(m_vec, want, name, kind):
    out = []
    for s, t in m_vec:
        if s[0] == kind and t.startswith("vector*"):
            typ, target = t.split(" ")[0].split("*")[-1], t.split(" ")[-1]
            v = next(v for k, v in sorted(want) if k.startswith(s))
            out.append((typ, v, name + "." + target))
    return out

def generate(c, fluid, simple=False):
    load_masters()
    d = Drawing(c, fluid)
    net = "Net" + c.of(["A", "Fluid", "Thing_2", "x"])
    solver = ["%g" % (10.0 ** -c.i(3, 9)), "1.0", str(c.i(1, 20))][:c.i(0, 3)]
    box, boxid = d.obj(net, "Network", {"type": "Network", "subtype": "Sub"}, "1", [("c%02d.s%d" % (k, k), v) for k, v in enumerate(solver)])
    parents = [boxid]
    for _ in range(c.i(0, 2)):       # groups inside the container (plain cells and non-GUNNS objects)
        p = c.of(parents)
        if c.b(0.5):
            i = d.id()
            e = d.cell(p, vertex="1")
            e.attr["id"], e.attr["value"] = i, ""
            d.els.append(e)
        else:
            i = d.id()
            d.els.append(El("object", {"label": "grp", "id": i}, [d.cell(p, vertex="1")]))
        parents.append(i)
        c.label("nested group")
    n = c.i(1, 6)
    # node labels: distinct most of the time, any order, with gaps
    labels, cur = [], 0
    for k in range(n):
        cur += 0 if (k == 0 and c.b(0.7)) else c.of([1, 1, 1, 2, 5])
        labels.append(cur)
    dup = n > 1 and c.b(0.1)
    if dup:
        labels[c.i(0, n - 1)] = c.of(labels)
        labels.sort()
        c.label("same number twice")
    if labels != list(range(n)):
        c.label("nodes renumbered")
    order = list(range(n))
    c.shuffle(order)
    fcfg, states, tcs, tcstates = [], [], [], []
    if fluid:
        fcfg = ["GUNNS_" + x for x in ["N2", "O2", "H2O", "CO2", "HE"]][:c.i(1, 5)]
        for k in range(c.i(1, 3)):
            states.append(("fluid%d" % k, [str(c.i(200, 400)), "1%d.0" % c.i(0, 9), "2%d.5" % c.i(0, 9)], [("%d.%d" % (c.i(0, 1), c.i(0, 9))) for _ in fcfg]))
        if c.b(0.4):
            tcs = ["CO", "NH3", "CH4"][:c.i(1, 3)]
            for k in range(c.i(1, 2)):
                tcstates.append(("tcState%d" % k, ["1.0e-%d" % c.i(2, 6) for _ in tcs]))
    nodes, ties = [], {}
    for k in order:                       # document order
        init = c.of([s[0] for s in states]) if fluid else c.of(["0.0", "1.5", "-2e3", "someValue"])
        e, i = d.obj(str(labels[k]), "Fluid Node" if fluid else "Basic Node", {"type": "Node", "subtype": "Fluid" if fluid else "Basic"}, c.of(parents),
                     [("i00.initialFluidState" if fluid else "i00.potential", init)])
        nodes.append([labels[k], i, init, e])
    ranked = sorted(range(n), key=lambda j: nodes[j][0])      # stable: document order decides a tie
    number_of = {nodes[j][1]: r for r, j in enumerate(ranked)}
    inits = [nodes[j][2] for j in ranked]
    targets = [(i, [number_of[i]]) for _, i, _, _ in nodes]
    for _ in range(c.i(0, 3)):
        lab = c.of(nodes)[0]
        _, i = d.obj(str(lab), "Reference Node (Vent)" if c.b(0.2) else "Reference Node", {"type": "Node", "subtype": "Reference"}, c.of(parents))
        targets.append((i, sorted(number_of[x[1]] for x in nodes if x[0] == lab)))
        c.label("reference node")
    grounds = []
    for _ in range(c.i(0, 2)):
        _, i = d.obj("", "Ground", {"type": "Node", "subtype": "Ground"}, c.of(parents))
        grounds.append(i)
        targets.append((i, [-1]))
    # sub-network interface container with ground nodes in it
    ifs = []
    if c.b(0.3):
        for q in range(c.i(1, 2)):
            _, ii = d.obj("ifBox%d" % q, "Subnet Interface", {"type": "Network", "subtype": "Subnet Interface"}, boxid)
            keys = {}
            k = 0
            for _ in range(c.i(1, 3)):
                attr = []
                if c.b(0.5):
                    attr = [("Key", "key%d" % c.i(0, 9))]
                _, gi = d.obj("", "Ground", {"type": "Node", "subtype": "Ground"}, ii, attr)
                k += 1
                keys[gi] = dict(attr).get("Key", None)
                targets.append((gi, [-1]))
                grounds.append(gi)
            ifs.append((ii, keys))
            c.label("sub-network interface")
    sockets = []
    for k in range(c.i(0, 2)):
        if c.b(0.4):
            opts = ["SOCK_%d_%d" % (k, j) for j in range(c.i(1, 3))]
            _, i = d.obj("sockType%d" % k, "Socket List", {"type": "Socket List", "subtype": ""}, boxid)
            d.rows1(i, opts)
            sockets.append(("sockType%d" % k, opts))
    tables = []
    if c.b(0.25):
        for k in range(c.i(1, 2)):
            rows = [("%d.0" % (j + 1), "%d.5" % c.i(0, 9)) for j in range(c.i(2, 4))]
            _, i = d.obj("table%d" % k, "Data Table", {"type": "Data Table", "subtype": "2D"}, boxid)
            d.rows2(i, [("Xaxis", "Yaxis")] + rows)
            tables.append(("table%d" % k, "Xaxis", "Yaxis", rows))
            c.label("data table")
    if fluid:
        _, i = d.obj("intFluidConfig", "Fluid Config", {"type": "Fluid", "subtype": "Config"}, boxid, [("isExternal", "0")])
        d.rows1(i, fcfg)
        for name, tpf, fr in states:
            _, i = d.obj(name, "Fluid State", {"type": "Fluid", "subtype": "State"}, boxid)
            d.rows2(i, [("Pressure", tpf[1]), ("Temperature", tpf[0]), ("Mass", tpf[2]), ("TraceCompounds", "&" + tcstates[0][0] if tcstates else "0")] + list(zip(fcfg, fr)))
        if tcs:
            _, i = d.obj("tcConf", "TC Config", {"type": "Fluid", "subtype": "TC Config"}, boxid, [("isExternal", "0")])
            d.rows1(i, tcs)
            for name, fr in tcstates:
                _, i = d.obj(name, "TC State", {"type": "Fluid", "subtype": "TC State"}, boxid)
                d.rows2(i, list(zip([""] + tcs, [""] + fr))[1:] if False else list(zip(["", *tcs][1:], fr)))
            c.label("trace compounds")
    # links
    pool = [m for m in LINKS if fluid_class(m["gunns"]["subtype"]) == fluid and (not simple)]
    links, allports = [], []
    for k in range(c.i(1, 5)):
        custom = c.b(0.1)
        if custom:
            np = c.i(0, 4)
            m = dict(attr={}, vec=[], gunns={"type": "Link", "subtype": "sim/custom/" + ("GunnsFluidMine" if fluid else "MyLink"), "numPorts": str(np), "reqPorts": "0"})
            c.label("custom link")
        else:
            m = c.of(pool)
        g = m["gunns"]
        name = "link%d%s" % (k, c.of(["", "_b", "Xy"]))
        if custom:
            want = [("c00.%s" % c.of(WORDS), number(c))][:c.i(0, 1)] + [("i%02d.%s" % (j, c.of(WORDS)), number(c)) for j in range(c.i(0, 2))]
            drawn = dict(want)
        else:
            drawn, want = shape_attrs(c, m, name)
        jump = []
        if "plugs" in g:
            for p in g["plugs"].split(","):
                key = next(kk for kk, _ in want if kk[0] == "c" and kk.split(".", 1)[1] == "plug" + p)
                use = c.of(["0"] + [s[0] for s in sockets])
                for kk in [x for x in drawn if x.split(".", 1)[1] == "plug" + p]:
                    del drawn[kk]
                drawn[key] = use
                want = [(a, b) if a != key else (a, "0" if use == "0" else "&network->" + name + "Plug" + p) for a, b in want]
                if use != "0":
                    jump.append((name + "Plug" + p, use))
            c.label("jumper")
        np, req = int(g["numPorts"]), [int(x) for x in g["reqPorts"].split(",")]
        if np:
            use = sorted(set(req) | set(p for p in range(np) if c.b(0.7)))
        else:
            use = sorted(set(req) | set(range(c.i(max(req), max(req) + 3) + 1)))
            c.label("variable-port link")
        label = name
        if c.b(0.06):
            label = "<b>" + name[:3] + "</b>" + name[3:]
            c.label("html in name")
        dg = {"type": "Link", "subtype": g["subtype"], "numPorts": g["numPorts"], "reqPorts": g["reqPorts"]}
        if "variant" in g:
            dg["variant"] = g["variant"]
        if "plugs" in g:
            dg["plugs"] = g["plugs"]
        vec = list(m["vec"])
        if not custom:
            if c.b(0.1):
                dg["numPorts"] = "7"
            if c.b(0.1):
                dg["reqPorts"] = "0"
            if vec and c.b(0.1):
                vec = []
                c.label("targets restored")
        e, li = d.obj(label, c.of(["Conductor", "Old About"]), dg, c.of(parents), list(drawn.items()), vec=vec)
        pmap = {}
        for p in use:
            ti, num = c.of(targets)
            par = [x for x in d.els if x.tag == "object" and x.attr["id"] == ti][0]
            a, b = (li, ti) if c.b(0.5) else (ti, li)
            _, pi = d.obj(str(p), "Port", {"type": "Port"}, c.of(parents), cellkw={"edge": "1", "source": a, "target": b})
            pmap[p] = num
            allports.append((k, p, ti, pi))
        # a second port of the same number may lead to a ground inside an interface box
        if ifs and c.b(0.3):
            p = c.of(use)
            first = [t for kk, q, t, _ in allports if kk == k and q == p][0]
            gi = c.of(sorted(ifs[0][1]))
            if first not in [x for f in ifs for x in f[1]]:
                d.obj(str(p), "Port", {"type": "Port"}, c.of(parents), cellkw={"edge": "1", "source": li, "target": gi})
                allports.append((k, p, gi, None))
                c.label("port to main node and interface")
        size = np if np else len(use)
        links.append(dict(cls=g["subtype"].split("/")[-1], path=g["subtype"], name=name, want=want, vec=m["vec"], fixed=np > 0,
                          map=[pmap.get(p, [-1]) for p in range(size)], jumper="plugs" in g, plugs=jump, el=e, id=li, req=req, use=use))
    spots = []
    for k in range(c.i(0, 3)):
        custom = c.b(0.3)
        m = c.of([s for s in SPOTTERS if s["attr"]["Class"]])
        name = "spot%d" % k
        if custom:
            m = dict(attr={"Class": "sim/MySpotter"}, vec=[], gunns={"type": "Spotter"})
            want = [("c%02d.%s" % (j, c.of(WORDS)), number(c)) for j in range(c.i(0, 2))] + [("i%02d.%s" % (j, c.of(WORDS)), number(c)) for j in range(c.i(0, 2))]
            drawn = dict(want)
        else:
            drawn, want = shape_attrs(c, m, name)
        dg = {"type": "Spotter"}
        if "variant" in m["gunns"]:
            dg["variant"] = m["gunns"]["variant"]
        ctor = c.of(["", "netNodeList", links[0]["name"], "netNodeList, " + links[0]["name"]])
        d.obj(name, "Spotter", dg, boxid, list(drawn.items()) + [("Class", m["attr"]["Class"]), ("ConstructorArgs", ctor)], vec=m["vec"])
        spots.append(dict(cls=m["attr"]["Class"].split("/")[-1], path=m["attr"]["Class"], name=name, want=want, vec=m["vec"], ctor=ctor))
        c.label("spotter")
    # things outside the container do not belong to the network
    if c.b(0.3):
        d.obj("77", "Basic Node", {"type": "Node", "subtype": "Basic" if c.b(0.5) else "Fluid"}, "1", [("i00.potential", "0.0")])
        d.obj("stray", "Conductor", {"type": "Link", "subtype": "core/GunnsBasicConductor", "numPorts": "2", "reqPorts": "0,1"}, "1", [("c00.defaultConductivity", "1")])
        c.label("strays outside")
    if c.b(0.3):
        e = d.cell("1", vertex="1")
        e.attr["id"], e.attr["value"] = d.id(), "free text"
        d.els.append(e)
    notes = []
    if c.b(0.3):
        d.obj("Copyright 20<i>24</i>", "Copyright", {"type": "Dox", "subtype": "copyright"}, "1")
    # document order of everything is free, but keep the order within the kinds the order means something for
    if c.b(0.5):
        ordered = list(d.els)
        c.shuffle(ordered)
        def kind(e):
            if e.tag == "mxCell":
                return "cell"
            return e.kids[0].attr.get("type", "") if e.kids and e.kids[0].tag == "gunns" else "plain"
        by = {}
        for e in d.els:
            by.setdefault(kind(e), []).append(e)
        d.els = [by[kind(e)].pop(0) for e in ordered]
        c.label("document order mixed")
    d.info = dict(net=net, solver=solver, n=n, inits=inits, links=links, spots=spots, sockets=sockets, tables=tables, ifs=ifs, ports=allports,
                  fcfg=fcfg, states=states, tcs=tcs, tcstates=tcstates, nodes=nodes, box=box, boxid=boxid, fluid=fluid)
    return d

# ------------------------------------------------------------------ running the exporter
_code = None
def script():
    global _code
    if _code is None:
        _code = compile(open(SCRIPT, "rb").read(), SCRIPT, "exec")
    return _code

def export(folder, name, args=()):
    """Runs the script in a child. Returns (kind, message): ok, abort, crash, hang."""
    code = script()
    out = os.path.join(folder, "log.txt")
    pid = os.fork()
    if pid == 0:
        st = 3
        try:
            signal.alarm(20)
            fd = os.open(out, os.O_CREAT | os.O_WRONLY | os.O_TRUNC)
            os.dup2(fd, 1); os.dup2(fd, 2)
            sys.stdout = os.fdopen(1, "w", closefd=False)
            os.chdir(folder)
            sys.path.insert(0, DRAW)
            sys.argv = [SCRIPT, name] + list(args)
            import builtins
            try:
                exec(code, {"__name__": "__main__", "__file__": SCRIPT, "__builtins__": builtins})
                st = 0
            except SystemExit as e:
                st = 0 if e.code in (None, 0) else 1
                if st:
                    sys.stdout.write("\nEXIT %s" % (e.code,))
            except BaseException:
                sys.stdout.write("\nCRASH " + traceback.format_exc()[-600:])
                st = 2
            sys.stdout.flush()
        finally:
            os._exit(st)
    _, w = os.waitpid(pid, 0)
    log = open(out, errors="replace").read() if os.path.exists(out) else ""
    if os.WIFSIGNALED(w):
        return "hang", "killed by signal %d" % os.WTERMSIG(w)
    return ("ok", "abort", "crash", "crash")[min(os.WEXITSTATUS(w), 3)], log[-700:]

# ------------------------------------------------------------------ reading the generated code back
def strip(t):
    t = re.sub(r'/\*.*?\*/', ' ', t, flags=re.S)
    return re.sub(r'//[^\n]*', ' ', t)

def fold(s):
    s = re.sub(r"\s+", " ", s).strip()
    return re.sub(r"\s*([^\w\s])\s*", r"\1", s)

def split_top(s):
    out, depth, cur, q = [], 0, "", False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in "([{":
                depth += 1
            elif ch in ")]}":
                depth -= 1
            elif ch == "," and depth == 0:
                out.append(cur)
                cur = ""
                continue
        cur += ch
    if cur.strip():
        out.append(cur)
    return [x.strip() for x in out]

def match(s, i, o="{", cl="}"):
    depth = 0
    for j in range(i, len(s)):
        if s[j] == o:
            depth += 1
        elif s[j] == cl:
            depth -= 1
            if depth == 0:
                return j
    raise Violation("syntax", "unbalanced generated code")

def function(t, head):
    """(initialiser list text, body text) of the definition whose head matches."""
    m = re.search(head, t)
    if not m:
        raise Violation("missing", "no definition of %s" % head)
    p = t.index("(", m.end() - 1)
    e = match(t, p, "(", ")")
    rest = t[e + 1:]
    r0 = rest.lstrip()
    init = ""
    off = e + 1
    if r0.startswith(":"):
        # the body is the first brace at depth 0 that follows an initialiser's closing parenthesis
        depth, q = 0, False
        k = t.index(":", off)
        for j in range(k, len(t)):
            ch = t[j]
            if ch == '"':
                q = not q
            elif not q and ch in "([":
                depth += 1
            elif not q and ch in ")]":
                depth -= 1
            elif not q and ch == "{" and depth == 0:
                break
        init, b = t[k + 1:j], j
    else:
        b = t.index("{", off)
    return init, t[b + 1:match(t, b)]

def inits(text):
    out = []
    for x in split_top(text):
        p = x.index("(")
        out.append((x[:p].strip(), [fold(a) for a in split_top(x[p + 1:x.rindex(")")])]))
    return out

def same(tag, what, got, want):
    if got != want:
        raise Violation(tag, "%s: generated %s, the drawing says %s" % (what, str(got)[:420], str(want)[:420]))

def verify(info, hh, cpp):
    net, links, spots = info["net"], info["links"], info["spots"]
    links = [l for l in links if not l["jumper"]] + [l for l in links if l["jumper"]]
    raw_c, raw_h = cpp, hh
    cpp, hh = strip(cpp), strip(hh)
    order = lambda xs: [fold(x) for x in xs]
    # nodes
    got = [(int(a), int(b), fold(v)) for a, b, v in re.findall(r'odes\[(\d+) \+ netSuperNodesOffset\]\.initialize\(name \+ createNodeName\((\d+) \+ netSuperNodesOffset\), (.*)\);', cpp)]
    if info["fluid"]:
        want = [(k, k, fold("&netInternalFluidConfig, &netInput." + v)) for k, v in enumerate(info["inits"])]
    else:
        want = [(k, k, fold(v)) for k, v in enumerate(info["inits"])]
    same("nodes", "node initialisation", got, want)
    g = re.findall(r'odes\[(\d+)\]\.initialize\(name \+ "\.GROUND"', cpp)
    same("ground", "ground node", g, [str(info["n"])])
    enum = dict((a, int(b)) for a, b in re.findall(r'\b(Node\d+|GROUND|N_NODES)\s*=\s*(\d+)', hh))
    w = {"Node%d" % k: k for k in range(info["n"])}
    w.update(GROUND=info["n"], N_NODES=info["n"] + 1)
    same("enum", "node numbers", enum, w)
    # config data
    il, body = function(cpp, re.escape("%sConfigData::%sConfigData(" % (net, net)))
    il = inits(il)
    d = [(n, a) for n, a in il]
    names = [n for n, _ in d]
    first = names.index("netSolver") if "netSolver" in names else -1
    if first < 0:
        raise Violation("solver", "no solver config")
    same("solver", "solver config", d[first][1], order(['name + ".netSolver"'] + info["solver"]))
    got = d[first + 1:]
    want = [(s["name"], order(['name + ".%s"' % s["name"]] + split_top(", ".join(args_of(s["want"], "c"))))) for s in spots]
    want += [(l["name"], order(['name + ".%s"' % l["name"], "&network->netNodeList"] + split_top(", ".join(args_of(l["want"], "c"))))) for l in links]
    same("config", "configuration data", got, want)
    def blocks(body):
        return [(fold(a), fold(v), fold(t)) for a, v, t in re.findall(r'const ([^\n]*?) array\[\] = (.*?);\s*([\w.]+)\.assign\(array, array \+ sizeof\(array\) ?/ ?sizeof\([^\n]*\)\);', body, re.S)]
    def wantblocks(kind):
        return [(fold(a), fold(v), fold(t)) for x in spots + links for a, v, t in vec_blocks(x["vec"], x["want"], x["name"], kind)]
    same("vectors", "configuration vectors", blocks(body), wantblocks("c"))
    # input data
    il, body = function(cpp, re.escape("%sInputData::%sInputData(" % (net, net)))
    il = inits(il)
    k = len(il) - len(spots) - len(links)
    want = [(x["name"], order(split_top(", ".join(args_of(x["want"], "i"))))) for x in spots + links]
    same("input", "input data", il[k:], want)
    same("vectors", "input vectors", blocks(body), wantblocks("i"))
    if info["fluid"]:
        pre = dict(il[:k])
        for name, tpf, fr in info["states"]:
            same("state", "mass fractions of " + name, pre.get(name + "Fractions"), order(fr))
            tc = "&" + info["tcstates"][0][0] if info["tcstates"] else "0"
            same("state", "fluid state " + name, pre.get(name), order([tpf[0], tpf[1], "0.0", tpf[2], name + "Fractions.array", tc]))
        for name, fr in info["tcstates"]:
            pass
        m = re.search(r'ConfigData::netInternalFluidTypes\[[^\]]*\]\s*=\s*\{([^}]*)\}', cpp)
        same("fluids", "fluid list", order(split_top(m.group(1))) if m else None, ["FluidProperties::" + f for f in info["fcfg"]])
        m = re.search(r'N_INTERNAL_FLUIDS = (\d+)', hh)
        same("fluids", "number of fluids", m and m.group(1), str(len(info["fcfg"])))
        m = re.search(r'struct %sFractions \{([^}]*)\}' % net, hh)
        same("fluids", "mass fraction names", re.findall(r'double (\w+);', m.group(1)) if m else None, info["fcfg"])
        a = re.findall(r'scalar\.(\w+)\s*=\s*(\w+);', hh)
        same("fluids", "mass fraction assignments", [x for x in a if x[0] in info["fcfg"]], [(f, "i" + f) for f in info["fcfg"]])
        if info["tcs"]:
            m = re.search(r'ConfigData::tcConfTypes\[[^\]]*\]\s*=\s*\{([^}]*)\}', cpp)
            same("compounds", "compound list", order(split_top(m.group(1))) if m else None, ["ChemicalCompound::" + f for f in info["tcs"]])
    # the network's constructor
    il, _ = function(cpp, r'(?<![\w])%s::%s\(' % (net, net))
    il = inits(il)
    plugs = [p for l in links for p in l["plugs"]]
    want = [(t[0], order([t[0] + t[1], t[0] + t[2], str(len(t[3])), t[3][0][0], t[3][-1][0]])) for t in info["tables"]]
    want += [(s["name"], order(split_top(s["ctor"]))) for s in spots] + [(p, order(['name + ".%s"' % p])) for p, _ in sorted(plugs)] + [(l["name"], []) for l in links]
    got = il[len(il) - len(want):]
    np = len(plugs)
    if np:        # plugs come in the order of the links they were found in
        a = len(info["tables"]) + len(spots)
        got = got[:a] + sorted(got[a:a + np]) + got[a + np:]
    same("members", "network constructor", got, want)
    same("base", "network constructor", [a for n, a in il if n == "GunnsNetworkBase"], [["name", "N_NODES", "netNodes"]])
    for t in info["tables"]:
        for ax, col in ((t[1], 0), (t[2], 1)):
            m = re.search(r'%s::%s%s\[(\d+)\]\s*=\s*\{([^}]*)\}' % (net, t[0], ax), cpp)
            same("table", "data table " + t[0], m and (m.group(1), order(split_top(m.group(2)))), (str(len(t[3])), [r[col] for r in t[3]]))
    # initialisation
    _, body = function(cpp, re.escape("void %s::initNetwork(" % net))
    fb = fold(body)
    got = re.findall(r'(\w+)\.addSocket\((\w+)\);', fb)
    want = [(p, s) for p, u in plugs for n, opts in info["sockets"] if n == u for s in opts]
    same("sockets", "sockets", sorted(got), sorted(want))
    seen = []
    for m in re.finditer(r'(?:const int array\[\]=\{(.*?)\};std::vector<int>\s?vector\(array,array\+sizeof\(array\)/sizeof\(int\)\);)?(\w+)\.initialize\(netConfig\.(\w+),netInput\.(\w+),netLinks(.*?)\);', fb):
        arr, a, b, cc, tail = m.groups()
        if arr is not None and tail == ",&vector":
            ports, fixed = arr.split(","), False
        else:
            ports, fixed = [x for x in tail.split(",") if x], True
        nums = []
        for p in ports:
            if p == "GROUND+groundOffset":
                nums.append(-1)
            else:
                mm = re.match(r'^Node(\d+)\+netSuperNodesOffset$', p)
                if not mm:
                    raise Violation("ports", "port %s of link %s" % (p, a))
                nums.append(int(mm.group(1)))
        if not (a == b == cc):
            raise Violation("links", "%s is initialised with the data of %s, %s" % (a, b, cc))
        seen.append((a, fixed, nums))
    same("links", "links initialised", [x[:2] for x in seen], [(l["name"], l["fixed"]) for l in links])
    for (a, _, nums), l in zip(seen, links):
        ok = len(nums) == len(l["map"]) and all(x in w for x, w in zip(nums, l["map"]))
        if not ok:
            raise Violation("ports", "link %s is connected to %s, the drawing says %s" % (a, nums, l["map"]))
    got = re.findall(r'(\w+)\.initialize\(&netConfig\.(\w+),&netInput\.(\w+)\);', fb)
    same("spotters", "spotters initialised", got, [(s["name"],) * 3 for s in spots])
    if not re.search(r'if\(!netIsSubNetwork\)\{netSolver\.initialize\w*Nodes\(netNodeList\);netSolver\.initialize\(netConfig\.netSolver,netLinks\);\}', fb):
        raise Violation("solver", "solver initialisation")
    if "netLinks.clear();" not in fb or fb.index("netLinks.clear();") > (fb.index(",netLinks") if ",netLinks" in fb else 0):
        raise Violation("links", "link list is not cleared first")
    for f, call in (("stepSpottersPre", "stepPreSolver"), ("stepSpottersPost", "stepPostSolver")):
        _, body = function(cpp, re.escape("void %s::%s(" % (net, f)))
        same("spotters", f, re.findall(r'(\w+)\.%s\(timeStep\);' % call, fold(body)), [s["name"] for s in spots])
    # header: every member is declared with its class, in the three classes
    for sfx, end in (("ConfigData", "ConfigData"), ("InputData", "InputData"), ("", "")):
        m = re.search(r'class %s%s\b[^;{]*\{' % (net, sfx), hh)
        if not m:
            raise Violation("header", "class %s%s is missing" % (net, sfx))
        body = hh[m.end() - 1:match(hh, m.end() - 1)]
        decl = re.findall(r'(\w[\w:]*)\s+(\w+);', body)
        names = set(x["name"] for x in links + spots)
        same("header", "declarations of class " + net + sfx, [(fold(a), b) for a, b in decl if b in names], [(x["cls"] + end, x["name"]) for x in spots + links])
    inc = set(re.findall(r'#include "([^"]+)"', hh))
    for x in links + spots:
        if x["path"] + ".hh" not in inc:
            raise Violation("header", "%s.hh is not included" % x["path"])
    for n, opts in info["sockets"]:
        m = re.search(r'class %s_%s\b.*?enum \w*\s*\{(.*?)\}' % (net, n), hh, re.S)
        if not m:
            raise Violation("sockets", "no plug class for " + n)
        e = re.findall(r'(\w+)\s*=\s*(-?\d+)', m.group(1))
        e = [x for x in e if x[0] in opts]
        same("sockets", "socket numbers of " + n, [x[0] for x in e], opts)
        if len(set(x[1] for x in e)) != len(opts):
            raise Violation("sockets", "socket numbers of %s repeat" % n)
    for p, u in plugs:
        if not re.search(r'%s_%s\s+%s;' % (net, u, p), hh):
            raise Violation("sockets", "plug %s is not declared" % p)

def interface_check(info, xml):
    """Connections recorded in the sub-network interface boxes of the saved drawing."""
    root = ET.fromstring(xml)
    byid = {o.attrib["id"]: o for o in root.iter("object")}
    links = info["links"]
    for ii, keys in info["ifs"]:
        o = byid[ii]
        same("interface", "node count", [x.attrib.get("count") for x in o.findall("gunnsSubnetIfNodeCount")], [str(info["n"])])
        got = sorted((x.attrib["Link"], x.attrib["Port"], x.attrib["Key"], x.attrib["Map"]) for x in o.findall("gunnsSubnetIfConnection"))
        want = set()
        for k, p, t, _ in info["ports"]:
            if t in keys:
                key = byid[t].attrib.get("Key", "")
                if not key.strip() or (keys[t] is not None and key != keys[t]):
                    raise Violation("interface", "key of an interface node: %r, drawn %r" % (key, keys[t]))
                want.add((links[k]["name"], str(p), key))
        same("interface", "connections of the interface", sorted(set(x[:3] for x in got)), sorted(want))
        same("interface", "connections of the interface repeat", len(set(got)), len(got))
        for l, p, key, mp in got:
            lk = [x for x in links if x["name"] == l][0]
            nums = [int(x) for x in mp.split(",")]
            if len(nums) != len(lk["map"]) or not all(x in w for x, w in zip(nums, lk["map"])):
                raise Violation("interface", "port map of %s in the interface is %s, expected %s" % (l, mp, lk["map"]))

def drop_stamp(t):
    return re.sub(r"\(\(Auto-generated by[^\n]*", "", t)

def read(p):
    return open(p).read() if os.path.exists(p) else None

def scratch():
    base = os.environ.get("VPT_TMP") or tempfile.gettempdir()
    return tempfile.mkdtemp(prefix="c42.", dir=base)

def facet_export(c):
    fluid = c.b(0.4)
    d = generate(c, fluid)
    info = d.info
    form = c.i(0, 2)
    c.label(("bare", "mxfile", "compressed")[form])
    c.label("fluid" if fluid else "basic")
    dup = len(set(x[0] for x in info["nodes"])) < info["n"]
    w = scratch()
    try:
        f = os.path.join(w, info["net"] + ".xml")
        src = d.text(form)
        open(f, "w").write(src)
        kind, log = export(w, info["net"] + ".xml")
        if kind != "ok":
            raise Violation("refused", "a complete drawing was not exported (%s): %s" % (kind, log))
        if read(f + ".bak") != src:
            raise Violation("backup", "the backup copy differs from the drawing")
        hh, cpp = read(f[:-4] + ".hh"), read(f[:-4] + ".cpp")
        if hh is None or cpp is None:
            raise Violation("output", "no code was written")
        verify(info, hh, cpp)
        saved = read(f)
        interface_check(info, saved)
        # the saved drawing describes the same network, and exporting it again changes nothing
        for mode in (["-g"], []):
            os.remove(f[:-4] + ".hh"); os.remove(f[:-4] + ".cpp")
            kind, log = export(w, info["net"] + ".xml", mode)
            if kind != "ok":
                raise Violation("again", "the saved drawing was not exported (%s): %s" % (kind, log))
            if drop_stamp(read(f[:-4] + ".hh") or "") != drop_stamp(hh) or drop_stamp(read(f[:-4] + ".cpp") or "") != drop_stamp(cpp):
                raise Violation("again", "exporting the saved drawing gives different code")
            if mode and read(f) != saved:
                raise Violation("again", "generation-only changed the drawing")
        a, b = ET.canonicalize(saved), ET.canonicalize(read(f))
        if a != b:
            raise Violation("again", "maintenance is not finished after one pass: the drawing changed again")
        # maintenance only
        if c.b(0.2):
            os.remove(f[:-4] + ".hh"); os.remove(f[:-4] + ".cpp")
            open(f, "w").write(src)
            kind, log = export(w, info["net"] + ".xml", ["-m"])
            if kind != "ok" or read(f[:-4] + ".hh") is not None or read(f) != saved:
                raise Violation("maintenance", "maintenance-only: %s, code written %s, same drawing %s" % (kind, read(f[:-4] + ".hh") is not None, read(f) == saved))
            c.label("maintenance only")
        c.nontrivial = len(info["links"]) > 0 and len(info["ports"]) > 1
        c.sample = "%s network %s: %d nodes drawn as %s, %s, spotters %s" % ("fluid" if fluid else "basic", info["net"], info["n"], [x[0] for x in info["nodes"]],
                    ["%s %s%s" % (l["cls"], l["name"], [x[0] for x in l["map"]]) for l in info["links"]], [s["cls"] for s in info["spots"]])
    finally:
        shutil.rmtree(w, ignore_errors=True)

def find(d, typ, sub=None):
    return [e for e in d.els if e.tag == "object" and e.kids and e.kids[0].tag == "gunns" and e.kids[0].attr.get("type") == typ and (sub is None or e.kids[0].attr.get("subtype") == sub)]

def cell_of(e):
    return [k for k in e.kids if k.tag == "mxCell"][0]

def facet_refuse(c):
    fluid = c.b(0.4)
    d = generate(c, fluid)
    info = d.info
    base = find(d, "Network", "Sub")[0]
    inside = [x[3] for x in info["nodes"]]
    ports = [e for e in d.els if e.tag == "object" and e.kids[0].tag == "gunns" and e.kids[0].attr["type"] == "Port"]
    kinds = ["no-net", "super", "two-nets", "no-nodes", "no-links", "mixed-nodes", "mixed-links", "node-label", "ref-label", "ref-match", "port-label", "port-loose", "port-half", "port-link-link", "port-missing", "port-twice",
             "port-beyond", "dangling", "no-name", "no-netname", "bad-type"] + (["no-fluid", "two-fluids", "no-states", "no-state", "tc-noconf"] if fluid else [])
    if any(l["jumper"] for l in info["links"]):
        kinds += ["bad-plug", "empty-plug"] * 3
    k = c.of(kinds)
    lk = c.of(info["links"])
    mine = [e for e in ports if lk["id"] in (cell_of(e).attr.get("source"), cell_of(e).attr.get("target"))]
    if k == "no-net":
        d.els.remove(base)
        for e in d.els:
            x = cell_of(e) if e.tag == "object" else e
            if x.attr.get("parent") == info["boxid"]:
                x.attr["parent"] = "1"
    elif k == "super":
        base.kids[0].attr["subtype"] = "Super"
    elif k == "two-nets":
        d.obj("Other", "Network", {"type": "Network", "subtype": "Sub"}, "1")
    elif k == "no-nodes":
        for e in inside:
            e.kids[0].attr["subtype"] = "Ground"
        d.els = [e for e in d.els if e not in find(d, "Node", "Reference")]
    elif k == "no-links":
        for l in info["links"]:
            d.els.remove(l["el"])
    elif k == "mixed-nodes":
        d.obj("%d" % c.i(90, 99), "Node", {"type": "Node", "subtype": "Basic" if fluid else "Fluid"}, info["boxid"], [("i00.potential", "0.0"), ("i00.initialFluidState", "x")])
    elif k == "mixed-links":
        d.obj("odd", "L", {"type": "Link", "subtype": "core/" + ("GunnsBasicConductor" if fluid else "GunnsFluidConductor"), "numPorts": "2", "reqPorts": "0"}, info["boxid"])
    elif k == "node-label":
        c.of(inside).attr["label"] = c.of(["", "a", "1.0", "-1", "2b"])
    elif k == "ref-label":
        d.obj(c.of(["", "x", "-1"]), "Reference Node", {"type": "Node", "subtype": "Reference"}, info["boxid"])
    elif k == "ref-match":
        d.obj("12345", "Reference Node", {"type": "Node", "subtype": "Reference"}, info["boxid"])
    elif k == "port-label":
        c.of(ports).attr["label"] = c.of(["", "a", "-1", "0.5"])
        if c.b(0.3):      # and not attached to a link either
            pass
    elif k == "port-loose":
        x = cell_of(c.of(ports)).attr
        x.pop("source"), x.pop("target")
    elif k == "port-half":
        cell_of(c.of(ports)).attr.pop(c.of(["source", "target"]))
    elif k == "port-link-link":
        x = cell_of(c.of(mine)).attr
        x["source"] = x["target"] = lk["id"]
    elif k == "port-missing":
        q = c.of(lk["req"])
        d.els = [e for e in d.els if not (e in mine and e.attr["label"] == str(q))]
    elif k == "port-twice":
        e = c.of(mine)
        x = cell_of(e).attr
        y = dict(x)
        d.obj(e.attr["label"], "Port", {"type": "Port"}, info["boxid"], cellkw={"edge": "1", "source": x["source"], "target": x["target"]})
    elif k == "port-beyond":
        n, to = (len(lk["map"]), lk["id"]) if lk["fixed"] else (0, info["nodes"][0][1])     # (a variable-port link takes any number)
        d.obj(str(n + c.i(0, 3)), "Port", {"type": "Port"}, info["boxid"], cellkw={"edge": "1", "source": to, "target": info["nodes"][0][1]})
    elif k == "dangling":
        cell_of(lk["el"]).attr["parent"] = "nowhere"
    elif k == "no-name":
        c.of([l["el"] for l in info["links"]] + find(d, "Spotter") + find(d, "Socket List") + find(d, "Data Table")).attr["label"] = c.of(["", " "])
    elif k == "no-netname":
        base.attr["label"] = ""
    elif k == "bad-type":
        d.obj("odd", "Odd", {"type": "Gizmo", "subtype": "x"}, info["boxid"])
    elif k == "no-fluid":
        d.els.remove(find(d, "Fluid", "Config")[0])
    elif k == "two-fluids":
        d.obj("second", "Fluid Config", {"type": "Fluid", "subtype": "Config"}, info["boxid"], [("isExternal", "0")])
    elif k == "no-states":
        d.els = [e for e in d.els if e not in find(d, "Fluid", "State")]
    elif k == "no-state":
        c.of(inside).attr["i00.initialFluidState"] = c.of(["", "0"])
    elif k == "tc-noconf":
        if not info["tcs"]:
            d.obj("tcx", "TC State", {"type": "Fluid", "subtype": "TC State"}, info["boxid"])
        else:
            d.els.remove(find(d, "Fluid", "TC Config")[0])
    elif k in ("bad-plug", "empty-plug"):
        e = c.of([l for l in info["links"] if l["jumper"]])["el"]
        a = [x for x in e.attr if ".plug" in x and x.split(".plug")[1].isdigit()][0]
        e.attr[a] = "noSuchList" if k == "bad-plug" else ""
    c.label(k)
    w = scratch()
    try:
        f = os.path.join(w, info["net"] + ".xml")
        src = d.text(c.i(0, 2))
        open(f, "w").write(src)
        kind, log = export(w, info["net"] + ".xml")
        if kind != "abort":
            raise Violation("accepted" if kind == "ok" else kind, "drawing broken by '%s': %s" % (k, log[-500:] if kind != "ok" else "exported without complaint"))
        if [x for x in os.listdir(w) if x.endswith((".hh", ".cpp"))]:
            raise Violation("partial", "code was written for a refused drawing")
        if read(f + ".bak") != src:
            raise Violation("backup", "the backup copy differs from the drawing")
        c.nontrivial = True
        c.sample = "%s: refused with '%s'" % (k, re.sub(r"\x1b\[\d+m", "", log.split("EXIT")[-1]).strip()[:150])
    finally:
        shutil.rmtree(w, ignore_errors=True)

def facet_compression(c):
    """draw.io's encoding (URI encoding, raw deflate, base64) both ways, against an independent codec."""
    spec = importlib.util.spec_from_file_location("compression_under_test", os.path.join(DRAW, "modules", "compression.py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    alpha = ["abc<>&\"'/= \n\t", "%+%20;:?#[]@!$,()*~._-", "\u00e9\u4e2d\U0001f600\u00a0", "xyzXYZ0123456789"]
    t = "".join(c.of(c.of(alpha)) for _ in range(c.i(0, 300)))
    if c.b(0.3):
        t = t * c.i(1, 60)
    a = m.compress(t)
    if m.decompress(a) != t:
        raise Violation("roundtrip", "decompress(compress(%r)) = %r" % (t[:120], m.decompress(a)[:120]))
    if inflate(a) != t:
        raise Violation("foreign", "compress(%r) does not read back with draw.io's decoding" % t[:120])
    if m.decompress(deflate(t)) != t:
        raise Violation("foreign", "text encoded as draw.io does reads back as %r" % m.decompress(deflate(t))[:120])
    c.nontrivial = len(t) > 1
    c.label("long" if len(t) > 2000 else "short")
    c.sample = repr(t[:60])

FACETS = [("compression", facet_compression, 2000, 20000, "a text of two or more characters"),
          ("export", facet_export, 2400, 16000, "a complete drawing with links and ports, exported and read back"),
          ("refuse", facet_refuse, 1600, 10000, "a drawing with one fault, refused")]

def run_case(fn, seed=None, data=None):
    c = Choices(seed, data)
    c.sample = ""
    try:
        fn(c)
        return c, None
    except Violation as v:
        return c, v

def batch(job):
    fi, seeds = job
    name, fn = FACETS[fi][0], FACETS[fi][1]
    out = dict(n=0, nt=0, labels={}, hashes=[], samples=[], bad=None)
    for s in seeds:
        c, v = run_case(fn, s)
        out["n"] += 1
        if v is not None:
            out["bad"] = (c.data, v.tag, v.msg)
            break
        if c.nontrivial:
            out["nt"] += 1
            out["hashes"].append(hashlib.sha1(repr(c.data).encode()).hexdigest()[:16])
            if len(out["samples"]) < 1:
                out["samples"].append(c.sample)
        for l in c.labels:
            out["labels"][l] = out["labels"].get(l, 0) + 1
    return out

def shrink(fn, data, tag, limit=40.0):
    t0 = time.time()
    def bad(x):
        try:
            c, v = run_case(fn, data=x)
        except Exception:
            return None
        return v if v is not None and v.tag == tag else None
    best = list(data)
    size, improved = max(1, len(best) // 2), True
    while time.time() - t0 < limit and (improved or size > 1):
        improved = False
        k = 0
        while k < len(best) and time.time() - t0 < limit:
            for cand in ([best[:k] + best[k + size:]], [best[:k] + [0] * len(best[k:k + size]) + best[k + size:]]):
                if cand[0] != best and bad(cand[0]):
                    best, improved = cand[0], True
                    break
            k += size
        size = max(1, size // 2)
    return best, bad(best)

def main():
    load_masters()
    script()
    if sys.argv[1] == "replay":
        r = json.load(open(sys.argv[2]))
        fn = [f[1] for f in FACETS if f[0] == r["facet"]][0]
        c, v = run_case(fn, data=r["choices"])
        print("labels: " + ", ".join(sorted(c.labels)))
        print("VIOLATION property=%s replay=%s\n  %s" % (PID, sys.argv[2], v) if v else "held")
        return 1 if v else 0
    seed, tier = int(os.environ.get("VERIF_SEED", "1")), os.environ.get("VERIF_TIER", "quick")
    res, t00 = dict(facets=[], violations=[], known={}, assumptions=["the shape libraries in draw/libraries say which data a link or spotter has"]), time.time()
    top = tempfile.mkdtemp(prefix="c42run.")
    os.environ["VPT_TMP"] = top
    try:
        for fi, (name, fn, q, t, rule) in enumerate(FACETS):
            with multiprocessing.Pool(8) as pool:
                t0 = time.time()
                n = t if tier == "thorough" else q
                jobs = [(fi, ["%d/%s/%d" % (seed, name, k) for k in range(a, min(n, a + 25))]) for a in range(0, n, 25)]
                tot = dict(n=0, nt=0, labels={}, hashes=set(), samples=[], bad=None)
                for o in pool.imap(batch, jobs):
                    tot["n"] += o["n"]; tot["nt"] += o["nt"]; tot["hashes"] |= set(o["hashes"])
                    tot["samples"] = (tot["samples"] + [x for x in o["samples"] if x])[:3]
                    for l, k in o["labels"].items():
                        tot["labels"][l] = tot["labels"].get(l, 0) + k
                    if o["bad"]:
                        tot["bad"] = o["bad"]
                        break
                    if time.time() - t00 > (780 if tier == "thorough" else 240):
                        break
                if tot["bad"]:
                    data, tag, msg = tot["bad"]
                    best, v = shrink(fn, data, tag)
                    p = os.path.join(os.environ.get("VPT_REPLAYDIR", "."), "%s-%s-%s.json" % (PID, name, tag))
                    json.dump(dict(property=PID, facet=name, tag=tag, message=v.msg if v else msg, choices=best), open(p, "w"))
                    res["violations"].append("VIOLATION property=%s replay=%s\n  facet %s, %s: %s" % (PID, p, name, tag, (v.msg if v else msg)[:900]))
                    pool.terminate()
                res["facets"].append(dict(name=name, planned=n, evaluations=tot["n"], discarded=0, nontrivial=tot["nt"], distinct_nontrivial=len(tot["hashes"]), labels=tot["labels"],
                                          wall_s=round(time.time() - t0, 2), rule=rule, samples=tot["samples"]))
                if tot["bad"] and not os.environ.get("VPT_KEEPGOING"):
                    break
    finally:
        shutil.rmtree(top, ignore_errors=True)
    json.dump(res, open(sys.argv[2], "w"))
    return 1 if res["violations"] else 0

if __name__ == "__main__":
    sys.exit(main())
