"""Stencil specifications: parsing, DSL generation (for the repository's own
YASK compiler) and seeded random programs.  sim/model.hpp interprets the same
text as the reference model."""
import os, re, random

DIR = os.path.join(os.path.dirname(os.path.abspath(__file__)), "sim", "stencils")


def text(name):
    """Specification of a stencil: a file, or (vr_<n>) a random program."""
    if name.startswith("vr_"):
        return random_spec(name)
    with open(os.path.join(DIR, name + ".st")) as f:
        return f.read()


def fixed():
    return sorted(f[:-3] for f in os.listdir(DIR) if f.endswith(".st"))


class Spec:
    def __init__(self, txt):
        self.vars, self.eqs, self.folds, self.misc, self.opts, self.attrs = {}, [], {}, [], [], []
        self.style = 0
        self.loops = {}
        self.newvars = 0
        for line in txt.split("\n"):
            w = line.split("#")[0].split()
            if not w:
                continue
            k = w[0]
            if k == "soln":
                self.name = w[1]
            elif k == "ddims":
                self.ddims = w[1:]
            elif k == "misc":
                self.misc = w[1:]
            elif k == "fold":
                self.folds[w[1]] = w[2]
            elif k == "loop":
                self.loops[w[1]] = (None if w[2] == "-" else w[2], w[3] if len(w) > 3 else None)
            elif k == "newvars":     # ALLOW_NEW_VARS
                self.newvars = 1
            elif k == "style":
                self.style = int(w[1])
            elif k in ("sval", "svalnot"):
                self.eqs[-1]["sval"] = (k == "svalnot", w[1:-2], w[-2], int(w[-1]))
            elif k == "ycopts":
                self.opts = w[1:]
            elif k in ("var", "scratch"):
                self.vars[w[1]] = (k, w[2:])
            elif k == "stepalloc":
                self.attrs.append("%s.get_var()->set_step_alloc_size(%s);" % (w[1], w[2]))
            elif k == "dynstep":
                self.attrs.append("%s.get_var()->set_dynamic_step_alloc(true);" % w[1])
            elif k == "eq":
                self.eqs.append(dict(lhs=w[1:], terms=[], cond=None, step=None, sval=None))
            elif k in ("if", "ifnot"):
                self.eqs[-1]["cond"] = (k == "ifnot", w[1:])
            elif k in ("step", "stepnot"):
                self.eqs[-1]["step"] = (k == "stepnot", int(w[1]), int(w[2]))
            else:
                self.eqs[-1]["terms"].append(w)

    def dsl(self):
        o = ["class C_%s : public yc_solution_base {" % self.name, "protected:", "  MAKE_STEP_INDEX(t);"]
        o += ["  MAKE_DOMAIN_INDEX(%s);" % d for d in self.ddims] + ["  MAKE_MISC_INDEX(%s);" % m for m in self.misc]
        for v, (k, d) in self.vars.items():
            o.append("  MAKE_%sVAR(%s);" % ("SCRATCH_" if k == "scratch" else "", ", ".join([v] + d)))
        o += ["public:", '  C_%s() : yc_solution_base("%s") { }' % (self.name, self.name), "  virtual void define() {"]
        o += ["    " + a for a in self.attrs]

        # In how many ways can one write the same thing?
        R = random.Random("style-%s-%d" % (self.name, self.style))
        sty = (lambda p: R.random() < p) if self.style else (lambda p: False)

        def arg(x):
            m = re.match(r"([a-z])([+-]\d+)$", x)
            if m and sty(.3):
                n, k = int(m[2]), R.randint(1, 4)
                return R.choice(["%d + %s" % (n, m[1]), "(%s %+d) - %d" % (m[1], n + k, k), "%s - (%d)" % (m[1], -n)])
            return x

        def acc(w):
            return "%s(%s)" % (w[0], ", ".join(arg(x) for x in w[1:]))

        def factor(w):
            if w[0] in ("max", "min", "abs"):
                a = " ".join(w[1:]).split(" , ")
                return "yask::%s(%s)" % (w[0] if w[0] != "abs" else "fabs", ", ".join(acc(x.split()) for x in a))
            return acc(w)

        def num(c):
            return ("%d" % c) if sty(.2) else "%d.0" % c

        def atom(c):
            m = re.match(r"([\w+%]+?)(>=|<=|==|!=|<|>)([fl])([+-]\d+)?$", c)
            l, first = m[1], re.match(r"\w", m[1])[0]
            l = "(%s)" % l if not l.isalnum() else l
            return "%s %s %s_domain_index(%s)%s" % (l, m[2], "first" if m[3] == "f" else "last", first, (" %s %s" % (m[4][0], m[4][1:])) if m[4] else "")

        def tree(ts):
            """A sum of terms (negative?, text, is it a number?) in some association."""
            if len(ts) == 1:
                neg, x, k = ts[0]
                if not neg:
                    return x, k
                return ("-(%s)" % x, k) if sty(.5) and not k else ("0.0 - " + x if not k else "-%s" % x, k)
            n = R.randint(1, len(ts) - 1) if sty(.5) else len(ts) - 1
            a, ka = tree(ts[:n])
            flip = ts[n][0]
            b, kb = tree([((t[0] != flip), t[1], t[2]) for t in ts[n:]])
            par = len(ts) - n > 1 or b.startswith("0.0 -")
            return "%s %s %s" % ("(%s)" % a if sty(.3) and not ka else a, "-" if flip else "+", "(%s)" % b if par or sty(.2) and not kb else b), False

        nu = 0
        for e in self.eqs:
            ts = []
            for t in e["terms"]:
                fs, cur = [], []
                for x in t[1:] + ["*"]:
                    if x == "*":
                        if cur:
                            fs.append(factor(cur))
                        cur = []
                    else:
                        cur.append(x)
                c = int(t[0])
                if not fs:
                    ts.append((c < 0, num(abs(c)), True))
                    continue
                if self.style and len(fs) > 1 and sty(.5):
                    fs.reverse()
                if c < 0 and len(fs) > 1 and sty(.3):
                    fs[0] = "(-%s)" % fs[0]
                    c = -c
                p = fs[0]
                for f in fs[1:]:
                    p = "%s * %s" % (p, f) if not sty(.2) else "(%s) * (%s)" % (f, p)
                a = abs(c)
                if self.style and sty(.1):
                    k = R.choice([2, 4])
                    p = R.choice(["%s * (%s) / %s" % (num(a * k), p, num(k)), "(%s) * %s / %s" % (p, num(a * k), num(k)), "(%s) / 0.%s" % (p, "5" if a == 2 else "25")
                                  if a in (2, 4) else "%s * (%s) / %s" % (num(a * k), p, num(k))])
                elif a == 2 and sty(.4):
                    o.append("    auto u%d = %s;" % (nu, p))
                    p = "(u%d + u%d)" % (nu, nu)
                    nu += 1
                elif a != 1:
                    p = "%s * %s" % (num(a), p if len(fs) == 1 else p) if not sty(.3) else "(%s) * %s" % (p, num(a))
                ts.append((c < 0, p, False))
            if self.style and sty(.3) and not ts[0][2]:
                o.append("    yc_number_node_ptr v%d = %s;" % (nu, tree(ts[:1])[0]))
                for t in ts[1:]:
                    o.append("    v%d %s= %s;" % (nu, "-" if t[0] else "+", t[1]))
                rhs = "v%d" % nu
                nu += 1
            elif self.style:
                # a number on its own cannot start a sum of numbers
                if ts[0][2] and len(ts) > 1:
                    ts = ts[1:] + ts[:1]
                rhs = tree(ts)[0]
            else:
                rhs = ""
                for i, (neg, x, k) in enumerate(ts):
                    rhs += (("0.0 - " if neg else "") if i == 0 else (" - " if neg else " + ")) + x
            st = "%s EQUALS %s" % (acc(e["lhs"]), rhs)
            both = e["cond"] and (e["step"] or e["sval"])
            cs = sc = ""
            if e["cond"]:
                neg, cl = e["cond"]
                alts = [" && ".join(atom(c) for c in a.split()) for a in " ".join(cl).split(" | ")]
                x = " || ".join("(%s)" % a for a in alts) if len(alts) > 1 else alts[0]
                cs = " IF_DOMAIN " + ("!(%s)" if neg else "(%s)") % x
            ss = []
            if e["step"]:
                neg, a, b = e["step"]
                ss.append(("!(%s)" if neg else "(%s)") % ("t %% %d == %d" % (a, b)))
            if e["sval"]:
                neg, v, op, k = e["sval"]
                ss.append(("!(%s)" if neg else "(%s)") % ("%s %s %d" % (acc(v), op, k)))
            if ss:
                sc = " IF_STEP " + " && ".join(ss)
            if cs and sc:
                st = "(%s%s)%s" % (st, sc, cs)
            else:
                st += cs + sc
            o.append("    " + st + ";")
        return "\n".join(o + ["  }", "};", "REGISTER_SOLUTION(C_%s);" % self.name]) + "\n"


def dsl_file(names):
    return ('#include "yask_compiler_api.hpp"\nusing namespace std;\nusing namespace yask;\nnamespace {\n'
            + "\n".join(Spec(text(n)).dsl() for n in names) + "}\n")


def random_spec(name):
    """A random stencil program.  Everything an equation reads at the new step is
    written by earlier equations, and every point is written in every step."""
    R = random.Random("vp-" + name)
    R3 = random.Random("vp3-" + name)
    rich = R3.random() < .7     # functions, general conditions, ways of writing expressions
    nd = R.choice([1, 2, 2, 2, 3, 3])
    dd = ["x", "y", "z"][:nd]
    if R.random() < .25:
        R.shuffle(dd)
    sdir = R.choice([1, 1, 1, -1])
    misc = ["a"] if R.random() < .35 else []
    maxoff = {1: 5, 2: 3, 3: 2}[nd]
    out = ["soln " + name, "ddims " + " ".join(dd)] + (["misc " + " ".join(misc)] if misc else [])
    V = {}

    def dims(step, ds, ms):
        d = list(ds) + list(ms)
        if ms and R.random() < .5:
            d.insert(R.randrange(len(d)), d.pop())
        return (["t"] if step else []) + d

    nout = R.randint(1, 3)
    outs = ["A", "B", "D"][:nout]
    for v in outs:
        V[v] = ("var", dims(True, dd, misc if R.random() < .4 else []))
    ro = []
    for v in ["C", "K"][:R.randint(0, 2)]:
        sub = [d for d in dd if R.random() < .6] or [R.choice(dd)]
        V[v] = ("var", dims(R.random() < .2, sub, misc if R.random() < .3 else []))
        ro.append(v)
    if misc and (R.random() < .3 or rich and R3.random() < .5):
        V["M"] = ("var", list(misc))
        ro.append("M")
    scr = []
    for v in ["T", "U", "W"][:R.choice([0, 0, 1, 1, 2, 3])]:
        ds = dd if nd == 1 or R.random() < .8 else [d for d in dd if R.random() < .7] or dd
        ds = dd
        V[v] = ("scratch", dims(False, ds, misc if R.random() < .3 else []))
        scr.append(v)
    for v, (k, d) in V.items():
        out.append("%s %s %s" % (k, v, " ".join(d)))
    mrange = {v: (0, R.choice([1, 1, 2])) for v in V}
    if rich:
        for v in mrange:
            b = R3.choice([0, 0, -1, 1, -2])
            mrange[v] = (mrange[v][0] + b, mrange[v][1] + b)

    def off(b, o):
        return b if o == 0 else "%s%+d" % (b, o)

    def access(v, toff, spread):
        # spread: how many dims may have an offset
        k, d = V[v]
        r = [v]
        cand = [x for x in d if x in dd]
        R.shuffle(cand)
        use = set(cand[:spread])
        for x in d:
            if x == "t":
                r.append(off("t", toff))
            elif x in misc:
                r.append(str(R.randint(*mrange[v])))
            else:
                r.append(off(x, R.randint(-maxoff, maxoff) if x in use else 0))
        return r

    def lhs(v, m):
        return [v] + [("t%+d" % sdir) if x == "t" else str(m) if x in misc else x for x in V[v][1]]

    def terms(avail_new, self_var, n, scr_ok):
        # A few reads; at most one product with a read-only var
        res = []
        for i in range(n):
            c = R.choice([1, 1, 1, -1, -1, 2])
            pool = ["old", "old", "old"] + (["new"] * 3 if avail_new else []) + (["scr"] * 3 if scr_ok else []) + (["ro"] if ro else [])
            p = R.choice(pool)
            sp = R.choice([0, 1, 1, 1, 2, nd])
            if p == "old":
                t = access(R.choice(outs), 0 if R.random() < .85 else -sdir, sp)
            elif p == "new":
                t = access(R.choice(avail_new), sdir, sp)
            elif p == "scr":
                t = access(R.choice(scr_ok), 0, sp)
            else:
                t = access(R.choice(ro), 0, sp)
            x = " ".join(t)
            if rich and R3.random() < .15:
                f = R3.choice(["max", "min", "abs"])
                x = f + " " + x
                if f != "abs":
                    t2 = list(t)
                    for k, d in enumerate(V[t[0]][1]):
                        if d in dd and R3.random() < .6:
                            t2[k + 1] = off(d, R3.randint(-maxoff, maxoff))
                    x += " , " + " ".join(t2)
            if rich and ro and R3.random() < .1:
                x += " * " + " ".join(access(R3.choice(ro), 0, 0))
            res.append("  %d %s" % (c, x))
        if R.random() < .2:
            res.append("  %d" % R.choice([1, 2, -3]))
        return res

    def conds():
        cs = []
        if rich and R3.random() < .5:
            alts = []
            for i in range(R3.randint(1, 2)):
                a = []
                for j in range(R3.randint(1, 2)):
                    d = R3.choice(dd)
                    k = R3.random()
                    if k < .3:
                        a.append("%s%%%d==f+%d" % (d, R3.randint(2, 4), R3.randint(0, 1)))
                    elif k < .5 and nd > 1:
                        e = R3.choice([q for q in dd if q != d])
                        a.append("%s+%s%sf+%d" % (d, e, R3.choice([">=", "<", "==", "!="]), R3.randint(2, 9)))
                    else:
                        a.append("%s%s%s%d" % (d, R3.choice([">=", "<", "!=", ">"]), R3.choice(["f+", "l-"]), R3.randint(0, 5)))
                alts.append(" ".join(a))
            return [" | ".join(alts)]
        for d in dd:
            if R.random() < .6:
                cs.append("%s>=f+%d" % (d, R.randint(0, 4)))
            if R.random() < .4:
                cs.append("%s<=l-%d" % (d, R.randint(0, 4)))
        return cs or ["%s%sf+%d" % (dd[0], R.choice([">", "<=", "=="]), R.randint(0, 5))]

    def emit(l, avail_new, v, scr_ok, allow_step):
        r = R.random()
        n = R.randint(1, 4)
        if r < .2:
            cs = " ".join(conds())
            for w in ("if ", "ifnot "):
                out.extend(["eq " + " ".join(l)] + terms(avail_new, v, n, scr_ok) + [w + cs])
        elif r < .3 and allow_step:
            m = R.randint(2, 3)
            onval = "M" in V and rich and R3.random() < .6
            ways = ["step %d 0", "stepnot %d 0"]
            if rich and R3.random() < .2:
                ways.remove(R3.choice(ways))  # steps without an update
            for w in ways:
                ts = terms(avail_new, v, n, scr_ok)
                if onval:
                    # a step condition on a value (and perhaps also on the points)
                    out.extend(["eq " + " ".join(l)] + ts + ["%s M %d > %d" % ("sval" if "not" not in w else "svalnot", mrange["M"][0], m - 2)])
                    continue
                if rich and R3.random() < .4:
                    c2 = " ".join(conds())
                    out.extend(["eq " + " ".join(l)] + ts + [w % m, "if " + c2])
                    out.extend(["eq " + " ".join(l)] + terms(avail_new, v, n, scr_ok) + [w % m, "ifnot " + c2])
                    continue
                out.extend(["eq " + " ".join(l)] + ts + [w % m])
        else:
            out.extend(["eq " + " ".join(l)] + terms(avail_new, v, n, scr_ok))

    new, done_scr = [], []
    left = list(scr)
    for v in outs:
        k = len(left) if v == outs[-1] else R.randint(0, len(left))
        for s in left[:k]:
            ms = range(mrange[s][0], mrange[s][1] + 1) if any(x in misc for x in V[s][1]) else [0]
            for m in ms:
                emit(lhs(s, m), list(new), s, list(done_scr), False)
            done_scr.append(s)
        left = left[k:]
        ms = range(mrange[v][0], mrange[v][1] + 1) if any(x in misc for x in V[v][1]) else [0]
        for m in ms:
            emit(lhs(v, m), list(new), v, list(done_scr), True)
        new.append(v)
    if rich:
        out.append("style %d" % R3.randint(1, 9))
    # ways of generating the loops
    R4 = random.Random("vp4-" + name)
    if R4.random() < .5:
        for lv, ms in (("rank", ["plain", "tiled"]), ("mega_block", ["nested", "tiled"]), ("block", ["plain", "tiled"]),
                       ("micro_block", ["nested", "tiled", "serpentine", "square_wave"]), ("nano_block", ["plain", "nested", "tiled", "square_wave"]),
                       ("misc", ["nested", "tiled", "serpentine", "square_wave"])):
            if R4.random() < .5:
                od = list("0123"[:nd])
                R4.shuffle(od)
                out.append("loop %s %s%s" % (lv, R4.choice(ms), " " + "".join(od) if nd > 1 and R4.random() < .4 else ""))
    o = []
    R2 = random.Random("vp2-" + name)
    for v in V:
        if V[v][0] == "var" and "t" in V[v][1]:
            if R2.random() < .15:
                out.append("stepalloc %s %d" % (v, R2.randint(3, 5)))
            if R2.random() < .25:
                out.append("dynstep %s" % v)
    if R2.random() < .1:
        o += ["-step-alloc", str(R2.randint(3, 5))]
    if R.random() < .3:
        o += ["-inner-loop-dim", R.choice(dd)]
    for var_, tot in (("a", 4), ("f", 8)):
        if nd > 1 and (R.random() < .6 or o):
            d = R.sample(dd, 2)
            out.append("fold %s %s" % (var_, ",".join("%s=%d" % (x, 2 if i == 0 else tot // 2) for i, x in enumerate(d))))
    for b, p in (("early-loads", .3), ("outer-domain-layout", .2)):
        if R.random() < p:
            o.append("-" + b)
    for b, p in (("bundle", .15), ("bundle-scratch", .2), ("first-inner", .2), ("inner-misc-layout", .3), ("opt-cse", .15), ("opt-comb", .1), ("use-ptrs", .15), ("vectorize-bounds", 0)):
        if R.random() < p:
            o.append("-no-" + b)
    if R.random() < .2:
        o += ["-min-buffer-len", str(R.choice([2, 4, 100]))]
    if R.random() < .15:
        o.append("-opt-reorder")
    if R.random() < .2:
        o += ["-max-es", str(R.choice([2, 5, 1000])), "-min-es", "1"]
    if o:
        out.append("ycopts " + " ".join(o))
    return "\n".join(out) + "\n"


if __name__ == "__main__":
    import sys
    t = text(sys.argv[1])
    print(t)
    print(Spec(t).dsl())
