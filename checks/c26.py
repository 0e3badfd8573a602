"""C26 parsers of text and headers"""
import os, tempfile
import numpy as np
from hypothesis import strategies as st
from vf.core import sub
from vf import gen
from vf.gen import fixed, uni, mix

P = "C26"
NUM = st.one_of(st.integers(0, 12), st.integers(0, 5000), st.sampled_from([0, 499, 500, 4999])).flatmap(lambda n: st.sampled_from([str(n), str(n), "0%d" % n]))
SP = st.sampled_from(["", "", "", " ", "  "])


@st.composite
def term(draw):
    sp = lambda: draw(SP)
    if draw(st.booleans()):
        n = draw(NUM)
        return [sp() + n + sp(), [int(n)]]
    a = draw(st.integers(0, 5000))
    b = a + draw(st.one_of(st.integers(-3, 12), st.integers(0, 300)))
    b = max(b, 0)
    return [sp() + str(a) + sp() + draw(st.sampled_from([":", "..", "-"])) + sp() + str(b) + sp(), list(range(a, b))]


@sub(P, lambda: fixed(terms=st.lists(term(), min_size=1, max_size=8)), 3000, 40000, "several terms", shards=2)
def fiber_lists(c, ctx):
    """ranges and lists expand to exactly the numbers written, with any blanks"""
    from desimeter.util import parse_fibers
    ctx.nontrivial(len(c["terms"]) > 1)
    s = ",".join(t for t, _ in c["terms"])
    want = [n for _, l in c["terms"] for n in l]
    ctx.label("range", any(ch in s for ch in ":.-"))
    got = parse_fibers(s)
    ctx.expect(isinstance(got, np.ndarray) and got.ndim == 1 and list(got) == want, "{!r} expanded to {} instead of {}", s, list(got)[:20], want[:20])
    if want:
        ctx.expect(got.dtype.kind == "i", "type {}", got.dtype)


@sub(P, lambda: fixed(v=st.one_of(st.none(), st.sampled_from(["", " ", "   ", "\t", " \t "]), st.integers(0, 9999))), 60, 300, "any", shards=1)
def fiber_special(c, ctx):
    """a number stands for itself; None and empty text for nothing"""
    from desimeter.util import parse_fibers
    ctx.nontrivial()
    got = parse_fibers(c["v"])
    want = [c["v"]] if isinstance(c["v"], int) else []
    ctx.expect(list(got) == want, "{!r} expanded to {}", c["v"], list(got))


GOOD = "0123456789"


def wellformed(s):
    """own acceptance of one term, blanks removed"""
    import re
    return re.fullmatch(r"[0-9]+((:|\.\.|-)[0-9]+)?", s) is not None


@sub(P, lambda: fixed(good=st.lists(term(), max_size=3), bad=st.one_of(st.text(alphabet="0123456789:.-, axe+\t", min_size=1, max_size=8), st.sampled_from(["1.", "1:", ":2", "-1", "1..", "..3", "1...3", "1:2:3", "1-2-3", "1:2-3", "a", "1e3", "1.5", "+3", "0x10", "1;2", "1/2", "²", "١"])), at=st.integers(0, 3)), 2500, 30000, "text that is no list", shards=2)
def not_fibers(c, ctx):
    """texts with a malformed term are refused"""
    from desimeter.util import parse_fibers
    terms = [t for t, _ in c["good"]]
    terms.insert(min(c["at"], len(terms)), c["bad"])
    s = ",".join(terms)
    parts = [p.replace(" ", "") for p in s.split(",")]
    if len(s.strip(" \t")) == 0 or any(" " in t.strip(" ") for t in s.split(",")):
        return ctx.label("blank or blank within a number")
    if all(wellformed(p) for p in parts):
        return ctx.label("well formed")
    if not any(p.isascii() for p in parts) or (c["bad"] == "١" and True):
        return ctx.label("other digits")
    ctx.nontrivial()
    ctx.raises((SystemExit, ValueError), lambda: parse_fibers(s), "text %r" % s)


@sub(P, lambda: fixed(v=st.tuples(*[mix(-2000., 2000., 0.)] * 5).map(list), rot=st.one_of(mix(-7200., 7200., 0., 3600., -3600.), st.integers(-500, 500)), n=st.sampled_from([6] * 6 + [0, 1, 5, 7]),
                      form=st.sampled_from(["text", "blanks", "tuple", "list", "number", "none", "missing", "fitsio", "astropy", "text entries"])), 900, 9000, "a rotation", shards=3)
def hexapod(c, ctx):
    """hexapod rotation of header values in every documented form"""
    from desimeter.io import read_hexrot_deg
    vals = (c["v"] + [c["rot"]] + [1.])[:c["n"]] if c["n"] != 6 else c["v"] + [c["rot"]]
    form = c["form"]
    txt = ",".join("%.1f" % v for v in vals)
    want = c["rot"] / 3600.
    tol = 1e-12
    ctx.nontrivial(c["rot"] != 0)
    ctx.label(form)
    other = {"HEXPOS": "1,2,3,4,5,777", "ADC1PHI": 3.}
    if form in ("text", "blanks", "fitsio", "astropy"):
        want, tol = round(c["rot"], 1) / 3600., .051 / 3600.
        if form == "blanks":
            txt = " " + txt.replace(",", " , ")
    if form in ("fitsio", "astropy"):
        if not txt:
            return
        from astropy.io import fits
        import fitsio
        with tempfile.TemporaryDirectory() as tmp:
            fn = os.path.join(tmp, "h.fits")
            h = fits.PrimaryHDU()
            h.header["FOCUS"] = txt
            h.writeto(fn)
            head = fitsio.read_header(fn) if form == "fitsio" else fits.getheader(fn)
    else:
        head = dict(other, FOCUS={"text": txt, "blanks": txt, "tuple": tuple(vals), "text entries": tuple("%r" % v for v in vals), "list": list(vals), "number": c["rot"], "none": None}.get(form))
        if form == "missing":
            del head["FOCUS"]
    if form == "missing":
        return ctx.raises((KeyError,), lambda: read_hexrot_deg(head), "header without FOCUS")
    if form in ("list", "number", "none") or len(vals) != 6:
        ctx.label("refused")
        if form == "list":       # a list may be refused or understood, never misread
            try:
                got = read_hexrot_deg(head)
            except ValueError:
                return
            ctx.expect(len(vals) == 6, "FOCUS={} accepted", head["FOCUS"])
            return ctx.close(got, want, tol, "rotation [deg]")
        return ctx.raises((ValueError,), lambda: read_hexrot_deg(head), "FOCUS=%r" % (head["FOCUS"],))
    ctx.close(read_hexrot_deg(head), want, tol, "rotation [deg]")


VOC = ["arc calibration", "use_desimeter=True", "use_desimeter=False", "theta", "phi arc", "grid", "req_move"]
WORDS = VOC + ["", "ThEta", "arc", "&", "exposure 12", "(a.b)*"]
TERMS = VOC + ["arc", "calib", "True", "exposure", "12", "", " ", "(a.b)*", "theta ", " grid"]


def selection(rs):
    """random notes, and a selection whose terms mostly occur in them"""
    notes = ["; ".join(rs.choice(WORDS, rs.randint(1, 5))) for _ in range(rs.randint(2, 14))]
    def term():
        if rs.rand() < .5:
            return TERMS[rs.randint(len(TERMS))]
        n = notes[rs.randint(len(notes))]
        i = rs.randint(0, max(1, len(n) - 3))
        return n[i:i + rs.randint(2, 9)].replace("&", "").replace("|", "") or "arc"
    alts = []
    for _ in range(1 + (rs.rand() < .5) + (rs.rand() < .2)):
        alts.append([" & ", "&"][rs.randint(2)].join(term() for _ in range(1 + (rs.rand() < .6) + (rs.rand() < .2))))
    return notes, "|".join(alts)


@sub(P, lambda: fixed(seed=gen.seeds(), sel=st.sampled_from([True] * 9 + [False]), kind=st.sampled_from(["text", "file", "numbers"])), 1500, 15000, "some rows selected and some not", shards=3)
def move_selection(c, ctx):
    """selection of moves by log note against the documented rule"""
    from astropy.table import Table
    from desimeter.posparams.posmoveselection import posmove_selection
    notes, sel = selection(np.random.RandomState(c["seed"] % 2**32))
    if not c["sel"]:
        sel = None
    t = Table(dict(I=np.arange(len(notes)), LOG_NOTE=notes, X=np.arange(len(notes)) * .5))
    if c["kind"] == "numbers":
        t["LOG_NOTE"] = [len(n) for n in notes]
        notes = [str(len(n)) for n in notes]
    if c["kind"] == "file":
        if not all(n.strip() == n and n for n in notes):
            notes = ["note " + n.strip() + "." for n in notes]
            t["LOG_NOTE"] = notes
        with tempfile.TemporaryDirectory() as tmp:
            fn = os.path.join(tmp, "t.csv")
            t.write(fn)
            t = Table.read(fn)
        notes = [str(v) for v in t["LOG_NOTE"]]
    keep = t.copy()
    r = posmove_selection(t, sel) if sel is not None else posmove_selection(t)
    ctx.expect(len(t) == len(keep) and all(np.array_equal(t[k], keep[k]) for k in keep.colnames), "input table modified")
    if sel is None:
        want = np.arange(len(notes))
    else:
        want = [i for i, n in enumerate(notes) if any(all(w.strip() in n for w in alt.split("&")) for alt in sel.split("|"))]
    ctx.nontrivial(0 < len(want) < len(notes))
    ctx.expect(list(r["I"]) == list(want), "selection {!r} kept rows {} instead of {} of notes {}", sel, list(r["I"]), list(want), notes)
    ctx.expect(r.colnames == keep.colnames and np.array_equal(r["X"], keep["X"][want]), "columns of the selected rows")
