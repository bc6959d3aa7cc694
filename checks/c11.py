"""Collections: the real Collection class executed with symbolic strings (an ordered universe of atoms; equality and
order of names, languages and texts are decided by the path) against a direct statement of what it must do."""

import os
import random
import types

from checks.lawbase import LawCheck
from engine import pysym
from engine import sym as S
from engine.pysym import wrapb

_env = {}
LITERALS = {"en": 0.0, "": -1000.0}
TEXT_KEYS = ("title", "subtitle", "author", "description", "artists")
USES = (("useSkin", "skins"), ("useBackground", "backgrounds"), ("useEffect", "effects"), ("useParticle", "particles"))
CATS = ("skins", "backgrounds", "effects", "particles", "engines", "levels")


def pos(x):
    """Position of a string in the ordered universe, or None for a string that is no atom."""
    if isinstance(x, Str):
        return x.t
    if isinstance(x, str) and x in LITERALS:
        return S.const(LITERALS[x])
    return None


class Str(str):
    """A symbolic string: a position in a totally ordered universe."""

    def __new__(cls, t, name):
        s = str.__new__(cls, f"<{name}>")
        s.t = t
        return s

    def __hash__(self):
        return HASH

    def __eq__(self, o):
        if self is o:
            return True
        p = pos(o)
        if p is None:
            return False
        return bool(wrapb(S.eq(self.t, p)))

    def __ne__(self, o):
        return not self == o

    def _cmp(self, o, f):
        p = pos(o)
        if p is None:
            raise pysym.Unsupported(f"order of a symbolic string and {o!r}")
        return bool(wrapb(f(self.t, p)))

    def __lt__(self, o):
        return self._cmp(o, S.lt)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: S.lt(b, a))

    def __le__(self, o):
        return self._cmp(o, S.le)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: S.le(b, a))

    def __format__(self, spec):
        return str.__str__(self)

    def __bool__(self):
        return self != ""

    def __len__(self):
        return 0 if self == "" else len(str.__str__(self))


for _m in "lower upper strip casefold title startswith endswith split replace encode capitalize swapcase lstrip rstrip partition find index __getitem__ __contains__ __add__ __mod__ join".split():

    def _mk(m):
        def f(self, *a, **k):
            raise pysym.Unsupported(f"str.{m} of a symbolic string")

        return f

    setattr(Str, _m, _mk(_m))

HASH = hash("en")  # symbolic strings meet the literal "en" in the same hash bucket


def literal(v):
    """Concrete string at a position: order-preserving, and equal to the literals exactly at theirs."""
    for k, p in LITERALS.items():
        if v == p:
            return k
    n = int((v + 5000.0) * 1e6)
    return ("a" if v < 0 else "z") + f"{n:020d}" if n >= 0 else "a-" + f"{10**20 + n:021d}"


class Sha:
    def __init__(self, L, data):
        self.L, self.data = L, data

    def hexdigest(self):
        d = self.data
        t = S.uf("sha1", (d.t,), lambda v: v)
        return Str(t, f"sha1({d.name})")


class Data(bytes):
    """Asset bytes as an atom."""

    def __new__(cls, t, name):
        s = bytes.__new__(cls, name.encode())
        s.t, s.name = t, name
        return s

    def __hash__(self):
        return 5

    def __eq__(self, o):
        return isinstance(o, Data) and bool(wrapb(S.eq(self.t, o.t)))


def env():
    if not _env:
        import sonolus
        import sonolus.build.collection as real

        path = os.path.join(os.path.dirname(sonolus.__file__), "build/collection.py")
        _env["path"] = path
        _env["real"] = real
        m = pysym.load(path, "sym_collection")
        _env["sym"] = m
    return _env


class World:
    """Inputs of one law: symbolic atoms, or concrete ones when replaying."""

    def __init__(self, L):
        self.L = L
        e = env()
        self.sym = L.concrete is None
        self.mod = e["sym"] if self.sym else e["real"]
        self.datas = []
        if self.sym:
            fake = types.ModuleType("hashlib")
            fake.sha1 = lambda d=b"", **k: Sha(L, d)
            for n in ("sha256", "md5", "sha512", "blake2b"):
                setattr(fake, n, lambda d=b"", **k: (_ for _ in ()).throw(pysym.Unsupported("other hash")))
            self.mod.hashlib = fake

    def str(self, name):
        v = self.L.var(name, integer=True)
        return Str(v.t, name) if self.sym else literal(v)

    def data(self, name):
        v = self.L.var(name, integer=True)
        if not self.sym:
            return literal(v).encode()
        d = Data(v.t, name)
        for o in self.datas:  # no collisions of the hash
            h = S.eq(S.uf("sha1", (d.t,), lambda v: v), S.uf("sha1", (o.t,), lambda v: v))
            pysym.PATH.assume(S.or_(S.not_(h), S.eq(d.t, o.t)), "sha1 injective", aux=True)
        self.datas.append(d)
        return d


def eqv(a, b):
    """Deep equality deciding symbolic strings."""
    if a is b:
        return True
    if isinstance(a, str) and isinstance(b, str):
        return bool(a == b)
    if isinstance(a, dict) and isinstance(b, dict):
        ka, kb = list(a), list(b)
        return len(ka) == len(kb) and all(any(eqv(x, y) and eqv(a[x], b[y]) for y in kb) for x in ka)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(map(eqv, a, b))
    if isinstance(a, (dict, list, tuple, str)) or isinstance(b, (dict, list, tuple, str)):
        return False
    return type(a) is type(b) and bool(a == b)


# ------------------------------------------------------------------ localization


def text(L, W, name, langs):
    """(value, expected text): a plain string or a mapping of languages."""
    kind = L.pick(f"{name}.kind", ("plain", "map", "empty"))
    if kind == "plain":
        s = W.str(f"{name}.s")
        return s, s
    if kind == "empty":
        return {}, ""
    m, keys = {}, []
    n = L.pick(f"{name}.n", tuple(range(1, langs + 1)))
    for k in range(n):
        key = "en" if L.pick(f"{name}.l{k}.en", (False, True)) else W.str(f"{name}.l{k}")
        for o in keys:
            L.assume(not key == o)
        keys.append(key)
        m[key] = W.str(f"{name}.t{k}")
    best = None
    for key in keys:
        if key == "en":
            return m, m[key]
        if best is None or key < best:
            best = key
    return m, m[best]


def localize(fields, tags, langs):
    def body(L):
        W = World(L)
        item = {"name": W.str("name"), "rating": L.var("rating"), "extra": {"en": W.str("x"), "nested": [1, {"title": {"en": "x"}}]}}
        want = {}
        for f in fields:
            if L.pick(f"{f}.present", (True, False)):
                item[f], want[f] = text(L, W, f, langs)
        if L.pick("meta", (True, False)):
            item["meta"] = {"title": {"en": W.str("m")}}
        wt = None
        if tags:
            n = L.pick("tags", tuple(range(tags + 1)))
            if L.pick("hastags", (True, False)):
                item["tags"], wt = [], []
                for k in range(n):
                    v, w = text(L, W, f"tag{k}", langs)
                    item["tags"].append({"title": v, "icon": W.str(f"icon{k}")})
                    wt.append(w)
        before = {k: (dict(v) if isinstance(v, dict) else [dict(x) for x in v] if isinstance(v, list) else v) for k, v in item.items()}
        c = W.mod.Collection()
        nm = W.str("key")
        cat = L.pick("category", ("levels", "skins", "posts"))
        c.add_item(cat, nm, item)
        got = c.get_item(cat, nm)
        for k in before:
            if k == "meta":
                L.check("metadata is dropped", "meta" not in got)
            elif k in want:
                L.check(f"{k}: text of the right language", isinstance(got.get(k), str) and eqv(got[k], want[k]))
            elif k == "tags":
                g = got.get("tags")
                L.check(
                    "tags: texts of the right language, other data kept",
                    isinstance(g, list)
                    and len(g) == len(wt)
                    and all(isinstance(t.get("title"), str) and eqv(t["title"], w) and len(t) == 2 and eqv(t["icon"], b["icon"]) for t, w, b in zip(g, wt, before["tags"])),
                )
            else:
                L.check(f"{k} is unchanged", k in got and eqv(got[k], before[k]))
        L.check("no data is added", all(k in before for k in got))
        L.check("the caller's item is left alone", set(item) == set(before) and all(eqv(item[k], before[k]) for k in before))

    return body


# ------------------------------------------------------------------ linking


def link(nitems, kinds, engine):
    def body(L):
        W = World(L)
        c = W.mod.Collection()
        pool = [W.str(f"n{k}") for k in range(nitems + 1)]
        have = {}  # category -> [(name, item)] newest last
        order = CATS[:5]
        for k in range(nitems):
            cat = L.pick(f"cat{k}", kinds)
            it = {"name": pool[k], "data": f"item{k}"}
            c.add_item(cat, pool[k], it)
            have.setdefault(cat, []).append((pool[k], f"item{k}"))

        def find(cat, name):
            for n, d in reversed(have.get(cat, [])):
                if n == name:
                    return d
            return None

        refs, lv = {}, {"name": W.str("lname"), "rating": 3}
        eng = L.pick("engine", (("str", "dict") if engine else ("dict",)))
        if eng == "str":
            lv["engine"] = pool[L.pick("eref", tuple(range(nitems + 1)))]
            L.assume(find("engines", lv["engine"]) is not None)
            refs["engine"] = find("engines", lv["engine"])
        else:
            lv["engine"] = {"name": pool[0], "data": "given"}
            refs["engine"] = "given"
        for key, cat in USES:
            if cat not in kinds:
                lv[key] = {"useDefault": True}
                refs[key] = None
                continue
            how = L.pick(f"{key}.how", ("name", "default", "dict", "other"))
            if how == "default":
                lv[key], refs[key] = {"useDefault": True}, None
                continue
            nm = pool[L.pick(f"{key}.ref", tuple(range(nitems + 1)))]
            val = nm if how == "name" else {"name": nm, "data": "given"} if how == "dict" else {"data": "nameless"}
            lv[key] = {"useDefault": False, "item": val}
            hit = find(cat, nm) if how != "other" else None
            refs[key] = (hit, val)
        lname = W.str("lkey")
        c.add_item("levels", lname, lv)
        c.link()
        got = c.get_item("levels", lname)
        L.check("the level keeps its other data", eqv(got["name"], lv["name"]) and got["rating"] == 3)
        L.check("engine reference", isinstance(got["engine"], dict) and got["engine"].get("data") == refs["engine"])
        for key, cat in USES:
            g = got[key]
            if refs[key] is None:
                L.check(f"{key}: default is untouched", g == {"useDefault": True})
                continue
            hit, val = refs[key]
            L.check(f"{key}: flag is untouched", g.get("useDefault") is False and set(g) == {"useDefault", "item"})
            if hit is None:
                L.check(f"{key}: a reference naming no item of {cat} stays", eqv(g["item"], val))
            else:
                L.check(f"{key}: replaced by the named item of {cat}", isinstance(g["item"], dict) and g["item"].get("data") == hit)
        # linking again changes nothing
        c.link()
        again = c.get_item("levels", lname)
        L.check("linking twice is linking once", again is got or eqv(again, got))
        for cat, l in have.items():
            for n, _ in l:
                L.check("items stay", c.get_item(cat, n).get("data") == find(cat, n))

    return body


# ------------------------------------------------------------------ merging, assets


def merge(n1, n2, cats):
    def body(L):
        W = World(L)
        a, b = W.mod.Collection(), W.mod.Collection()
        have = []
        assets = []
        for who, c, n in (("a", a, n1), ("b", b, n2)):
            for k in range(n):
                nm, cat = W.str(f"{who}{k}"), L.pick(f"{who}{k}.cat", cats)
                c.add_item(cat, nm, {"name": nm, "data": f"{who}{k}"})
                have.append((who, cat, nm, f"{who}{k}"))
        for who, c in (("a", a), ("b", b)):
            d = W.data(f"{who}.asset")
            assets.append((c.add_asset(d), d))
        bkeys = [(cat, nm, d) for who, cat, nm, d in have if who == "b"]
        a.update(b)

        def find(cat, nm, among):
            for w, c, n, d in reversed(among):
                if c == cat and n == nm:
                    return d
            return None

        for _, cat, nm, _ in have:
            L.check("after merging every item is there, the newer one wins", a.get_item(cat, nm)["data"] == find(cat, nm, have))
        for cat, nm, _ in bkeys:
            L.check("the merged collection is untouched", b.get_item(cat, nm)["data"] == find(cat, nm, [h for h in have if h[0] == "b"]))
        for cat in cats:
            distinct = []
            for _, c, n, _ in have:
                if c == cat and not any(n == m for m in distinct):
                    distinct.append(n)
            L.check("no item is invented", len(a.categories.get(cat, {})) == len(distinct))
            if distinct:
                first = distinct[0]
                L.check("the default item is the first one", a.get_default_item(cat)["data"] == find(cat, first, have))
        late, lc = W.str("late"), cats[0]
        a.add_item(lc, late, {"data": "late"})
        L.check("adding to one collection later does not change the other", len(b.categories.get(lc, {})) == len([1 for k, (c, n, _) in enumerate(bkeys) if c == lc and not any(c2 == c and n2 == n for c2, n2, _ in bkeys[:k])]))
        for srl, d in assets:
            L.check("assets survive merging", srl["hash"] in a.repository and eqd(a.repository[srl["hash"]], d))

    return body


def eqd(a, b):
    return a is b or bool(a == b)


def assets(n):
    def body(L):
        W = World(L)
        c = W.mod.Collection()
        seen = []
        for k in range(n):
            d = W.data(f"d{k}")
            srl = c.add_asset(d)
            seen.append((srl, d))
            L.check("the link names the hash", f"{srl['url']}" == f"/sonolus/repository/{srl['hash']}")
            if not W.sym:
                import hashlib

                L.check("the key is the content hash", srl["hash"] == hashlib.sha1(d).hexdigest())
            else:
                L.check("the key is the content hash", srl["hash"] == Sha(L, d).hexdigest())
            for s, x in seen:
                L.check("stored assets are found again", s["hash"] in c.repository and eqd(c.repository[s["hash"]], x))
        distinct = []
        for _, d in seen:
            if not any(eqd(d, x) for x in distinct):
                distinct.append(d)
        L.check("equal assets are stored once", len(c.repository) == len(distinct))

    return body


def missing(n):
    """get_item of an absent item is refused; present ones are returned."""

    def body(L):
        W = World(L)
        c = W.mod.Collection()
        names = [(L.pick(f"c{k}", ("skins", "effects")), W.str(f"n{k}")) for k in range(n)]
        for k, (cat, nm) in enumerate(names):
            c.add_item(cat, nm, {"data": k})
        q, qc = W.str("q"), L.pick("qc", ("skins", "effects"))
        want = None
        for k, (cat, nm) in enumerate(names):
            if cat == qc and nm == q:
                want = k
        try:
            got = c.get_item(qc, q)["data"]
        except KeyError:
            got = None
        L.check("exactly the named item is found", got == want)

    return body


# ------------------------------------------------------------------ sources on disk and archives (names chosen by the path)


class FakeZip:
    def __init__(self, entries):
        self.entries = entries
        self.filelist = [types.SimpleNamespace(filename=n) for n in entries]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def read(self, e):
        return self.entries[e.filename]


def archive(n):
    """load_from_scp with stand-ins for the zip file and JSON: which entry becomes which item."""

    def body(L):
        W = World(L)
        entries, want, repo = {}, {}, {}
        for k in range(n):
            pre = L.pick(f"p{k}", ("sonolus/", ""))
            d = L.pick(f"d{k}", ("skins", "levels", "repository", "nonsense"))
            f = L.pick(f"f{k}", ("one", "two", "info", "List", "x.json"))
            full = f"{pre}{d}/{f}"
            payload = f'{{"item": {{"data": {k}}}}}'.encode()
            if full in entries:
                continue
            entries[full] = payload
            if f.lower() in ("info", "list"):
                continue
            if d == "repository":
                repo[f] = payload
            elif d != "nonsense":
                want[d, f.split(".")[0]] = k
        # the archive lists prefixed and unprefixed twins in order: the later one wins
        c = W.mod.Collection()
        save = W.mod.zipfile
        fake = types.SimpleNamespace(ZipFile=lambda b: FakeZip(entries), ZipInfo=object)
        W.mod.zipfile = fake
        try:
            c.load_from_scp(b"")
        finally:
            W.mod.zipfile = save
        got = {(cat, nm): d["item"]["data"] for cat, m in c.categories.items() for nm, d in m.items()}
        L.check(f"items of the archive {sorted(entries)}: {got} expected {want}", got == want)
        L.check("repository files of the archive", c.repository == repo)

    return body


LAWS = {
    "localize-title": lambda t: localize(("title",), 0, 3 if t else 2),
    "localize-subtitle": lambda t: localize(("subtitle",), 0, 3 if t else 2),
    "localize-author": lambda t: localize(("author",), 0, 3 if t else 2),
    "localize-description": lambda t: localize(("description",), 0, 3 if t else 2),
    "localize-artists": lambda t: localize(("artists",), 0, 3 if t else 2),
    "localize-tags": lambda t: localize((), 2, 3 if t else 2),
    "localize-two": lambda t: localize(("title", "artists"), 0, 2),
    "localize-three-languages": lambda t: localize(("title",), 0, 4 if t else 3),
    "link-skin": lambda t: link(2, ("skins", "effects"), False),
    "link-background": lambda t: link(2, ("backgrounds", "skins"), False),
    "link-effect": lambda t: link(2, ("effects", "particles"), False),
    "link-particle": lambda t: link(2, ("particles", "backgrounds"), False),
    "link-engine": lambda t: link(2, ("engines", "skins"), True),
    "link-three": lambda t: link(3, ("skins", "engines"), True),
    "merge": lambda t: merge(2, 2, ("skins", "levels")),
    "merge-one": lambda t: merge(1, 3 if t else 2, ("skins", "levels")),
    "merge-more": lambda t: merge(3, 2 if t else 1, ("skins",)),
    "assets": lambda t: assets(4 if t else 3),
    "missing": lambda t: missing(4 if t else 3),
    "archive": lambda t: archive(3 if t else 2),
}


class Check(LawCheck):
    prop = "C11"
    functions = (
        "sonolus/build/collection.py:Collection.add_item, _make_item_details, _localize_item, _localize_text, get_item, "
        "get_default_item, link, update, add_asset, load_from_scp, _group_zip_entries_by_directory, "
        "_should_skip_zip_entry, _extract_category_items, _add_repository_items",
    )
    assumptions = (
        "names, languages and texts are atoms of a totally ordered universe containing 'en' and ''; no code under "
        "test looks inside them",
        "SHA-1 is an uninterpreted collision-free function; the zip reader is a stand-in that returns the given entries",
    )
    quick_s = 40

    def jobs(self, tier, seed):
        return [(tier, k) for k in LAWS]

    def law(self, spec):
        t = spec[0] != "quick"
        return pysym.Law(LAWS[spec[1]](t), max_paths=20000 if t else 3000, levels=("zr", "zx"))

    def bounds(self, tier):
        return {
            "items": "up to 3 per collection, names symbolic, categories chosen by the path",
            "languages_per_text": 4 if tier != "quick" else 3,
            "assets": 4 if tier != "quick" else 3,
            "archive_entries": 3 if tier != "quick" else 2,
            "paths_per_law": 20000 if tier != "quick" else 3000,
        }


CHECK = Check()
