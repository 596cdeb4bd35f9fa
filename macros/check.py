"""C20: every form of adv_fn!, generated, compiled and run.

The forms are the product of the macro's options; each becomes a module. A form that does not compile
is found by bisection.  usage: check.py <quick|thorough> | check.py form <tier> <name>
"""
import itertools, json, os, subprocess, sys, time

VERIF = os.environ["VERIF_DIR"]
TARGET = os.path.join(VERIF, "target")
GEN = os.path.join(TARGET, "forms-gen")
HERE = os.path.dirname(os.path.abspath(__file__))
SHARDS = 8

ATTRS = {
    "plain": "",
    "allow": "#[allow(dead_code)]",
    "doc": "/// A function\n    /// of several lines",
    "several": "/// A function\n    #[inline(always)]\n    #[allow(unused_variables, non_snake_case)]\n    #[must_use]",
    # the attribute has to reach the function: without it the lint of the module makes an error
    "lint": "#[allow(unused_variables, clippy::all)]",
    "cfg": '#[cfg(not(no_such_cfg))]\n    #[deny(unsafe_code)]',
}
VIS = {"private": "", "pub": "pub", "crate": "pub(crate)", "super": "pub(super)", "in": "pub(in crate)"}
# parameters, call values, factor in the body, its value, (argument or result dimensions from them)
EXTRA = {
    "none": ([], [], "2.0", 2.0, []),
    "one": (["a: f64"], ["-1.5"], "a", -1.5, []),
    "two": (["a: f64", "k: usize"], ["0.5", "2"], "mul(a, k as f64)", 1.0, [("k", 2), ("k + 1", 3), ("2 * k - 1", 3), ("if k > 1 { 1 } else { 2 }", 1)]),
    "vec": (["w: Vec<f64>"], ["vec![0.5, 1.0]"], "add(w[0], w[1])", 1.5, [("w.len()", 2), ("w.len() + 1", 3)]),
    "refs": (["s: &'static [f64]", "t: (f64, f64)"], ["&[0.25, 1.0]", "(2.0, -3.0)"], "mul(s[0], t.1)", -0.75, [("s.len()", 2)]),
    # the names that the macro uses itself
    "names": (["input: f64", "result: usize", "body: f64", "result_dim: f64"], ["3.0", "2", "0.0", "0.0"], "mul(input, result as f64)", 6.0, [("result", 2)]),
    "nested": (["g: fn(f64) -> f64", "v: DVector<f64>"], ["|x| x * x", "DVector::from_element(2, 1.5)"], "g(v[1])", 2.25, [("v.nrows()", 2)]),
    "many": (["a%d: f64" % i for i in range(13)], ["%d.5" % i for i in range(13)], "mul(a12, add(a1, a11))", 12.5 * 13.0, []),
    "arrays": (["a: [f64; 2]", "b: Option<(usize, [[f64; 1]; 1])>"], ["[0.5, 1.5]", "Some((1, [[2.0]]))"], "mul(a[1], b.map_or(0.0, |b| b.1[0][0]))", 3.0, [("a.len()", 2), ("b.unwrap().0 + a.len()", 3)]),
}
# how the argument is written
STYLES = {"named0": 0, "named1": 1, "named2": 2, "named3": 3, "vars0": 0, "vars1": 1, "vars2": 2, "vars3": 3}
BIG = {"vars%d" % n: n for n in (4, 5, 8, 9, 12, 16, 17, 26, 33, 65)}
BODIES = ["list", "loop", "early", "consume", "late"]
WRONG = ["wrong", "early wrong", "more"]
PATHS = {"import": "adv_fn! {{ {} }}", "path": "advantage::adv_fn! {{ {} }}", "renamed": "adv::adv_fn! {{ {} }}", "parens": "adv_fn!({});", "brackets": "adv_fn![{}];"}


class Form:
    def __init__(self, style, attr, vis, extra, comma, dims, body, path="import", place="module"):
        self.key = (style, attr, vis, extra, comma, dims, body, path, place)
        self.style, self.attr, self.vis, self.extra, self.comma, self.dims, self.body, self.path, self.place = self.key
        self.name = "; ".join([style, attr, vis, extra + ("," if comma else ""), "%s->%s" % (dims[0][0], dims[1][0]), body, path, place])

    def source(self, ident):
        n = self.dims[0][1]
        m = self.dims[1][1]
        params, values, factor, c, _ = EXTRA[self.extra]
        named = self.style.startswith("named")
        var = (lambda i: "x[%d]" % i) if named else (lambda i: "x%d" % i)
        arg = "x: [[%s]]" % self.dims[0][0] if named else "[[%s]]" % ", ".join("x%d" % i for i in range(n))
        sig = ", ".join([arg] + params) + ("," if self.comma else "")
        el = (lambda i: "<Scalar as From<f64>>::from(c)") if n == 0 else (lambda i: "%s * %s * c + %s" % (var(i % n), var((i + 1) % n), var((i + 1) % n)))
        els = [el(i) for i in range(m)]
        lst = "adv_dvec![%s]" % ", ".join(els)
        empty = "DVector::<Scalar>::from_vec(vec![])"
        if m == 0:
            lst = empty
        wrong = "adv_dvec![%s]" % ", ".join(els + ["<Scalar as From<f64>>::from(0.0)"])
        less = "adv_dvec![%s]" % ", ".join(els[:-1]) if m > 1 else empty
        head = "let c: f64 = %s;" % factor
        use = "".join(" let _ = x%d;" % i for i in range(n)) if not named else ""
        if self.body == "list":
            b = head + " " + lst
        elif self.body == "loop":
            b = head + " let mut y: Vec<Scalar> = vec![]; " + " ".join("y.push(%s);" % e for e in els) + " DVector::from_vec(y)"
        elif self.body == "early":
            b = head + " if c < 1e300 { return %s; } %s" % (lst, empty)
        elif self.body == "consume":
            # the body takes everything it was given
            take = ", ".join((["x"] if named else []) + [p.split(":")[0] for p in params])
            v2 = (lambda i: "x[%d]" % i) if named else var
            b = head + (" fn eat<T>(t: T) -> T { t }" if take else "") + (" let y = %s;" % lst) + (" eat((%s,));" % take if take else "") + " y"
        elif self.body == "late":
            b = "use std::convert::identity; " + head + " let y = (|| %s)(); identity(y)" % lst
        elif self.body == "wrong":
            b = head + use + " " + (wrong if n else less if m else wrong)
        elif self.body == "more":
            b = head + use + " DVector::<Scalar>::zeros(%d)" % (m + 2)
        else:
            b = head + use + " if c < 1e300 { return %s; } %s" % (less if m else wrong, lst)
        if self.attr == "lint":
            b = "let unused = 0; " + b
        macro = PATHS[self.path].format("\n    %s\n    %s fn f(%s) -> [[%s]] {\n        %s\n    }\n" % (ATTRS[self.attr], VIS[self.vis], sig, self.dims[1][0], b))
        call = "".join(", " + v for v in values)
        obj = "adv_fn_obj!(f%s)" % call
        case = """Case {
        name: %s, n: %d, m: %d, c: %r, wrong: %s,
        float: Box::new(|x| f::<f64>(x%s)),
        active: Box::new(|x| f::<ADouble>(x%s)),
        obj: Box::new(%s),
    }""" % (json.dumps(self.name), n, m, c, "true" if self.body in WRONG else "false", call, call, obj)
        consts = "    #[allow(dead_code)]\n    const N: usize = %d;\n    #[allow(dead_code)]\n    const M: usize = %d;\n" % (n, m)
        use = "    #[allow(unused_imports)]\n    use super::*;\n"
        if self.attr == "lint":
            use = "    #![deny(unused_variables)]\n" + use
        if self.place == "function":
            return "mod %s {\n%s%s    pub fn case() -> Case {\n    %s\n    %s\n    }\n}\n" % (ident, use, consts, macro, case)
        if self.place == "imported":
            # defined in another module
            inner = "    mod inner {\n    #[allow(unused_imports)]\n    use super::super::*;\n%s%s\n    }\n    use inner::*;\n" % (consts, macro)
            return "mod %s {\n%s%s    pub fn case() -> Case {\n    %s\n    }\n}\n" % (ident, use, inner, case)
        return "mod %s {\n%s%s    %s\n    pub fn case() -> Case {\n    %s\n    }\n}\n" % (ident, use, consts, macro, case)


def arg_dims(style, extra):
    n = BIG[style] if style in BIG else STYLES[style]
    if style.startswith("vars"):
        return [("vars", n)]
    d = [(str(n), n)]
    if n == 2:
        d += [("1 + 1", 2), ("N", 2)]
    return d + [e for e in EXTRA[extra][4] if e[1] == n]


def res_dims(extra, full):
    d = [("2", 2), ("1", 1)]
    if full:
        d += [("0", 0), ("M", 3), ("2 * 2", 4), ("(1 + 2)", 3), ("{ let a = 1; a + 1 }", 2)]
    return d + [e for e in EXTRA[extra][4]]


def forms(tier):
    out = {}

    def put(*a, **k):
        f = Form(*a, **k)
        out.setdefault(f.name, f)

    t = tier == "thorough"
    # the signature: argument style, attributes, visibility, extra arguments, comma
    styles = list(STYLES) if t else ["named2", "vars0", "vars1", "vars2"]
    viss = list(VIS) if t else ["private", "pub", "super", "in"]
    for s, a, v, e, c in itertools.product(styles, ATTRS, viss, EXTRA, [False, True]):
        if not t and (list(ATTRS).index(a) + list(EXTRA).index(e) + viss.index(v)) % 2 and v != "private":
            continue
        put(s, a, v, e, c, (arg_dims(s, e)[0], ("2", 2)), BODIES[(list(EXTRA).index(e) + c) % len(BODIES)])
    # dimensions and bodies
    for s, e in itertools.product(STYLES, EXTRA):
        for ad, rd in itertools.product(arg_dims(s, e), res_dims(e, True)):
            bodies = BODIES + WRONG if t or s in ("named2", "vars2") else ["list", "early wrong"]
            for b in bodies:
                put(s, "plain", "private", e, False, (ad, rd), b)
    # many components
    for s, e in itertools.product(BIG, EXTRA):
        for rd in res_dims(e, False) + [(str(BIG[s]), BIG[s])]:
            for b in BODIES + WRONG if t else ["list", "consume", "early wrong"]:
                put(s, "doc", "pub", e, b == "list", (arg_dims(s, e)[0], rd), b)
    # how the macro is reached and where it is used
    for s, a, e, p, pl in itertools.product(["named2", "vars2"] if not t else STYLES, ["plain", "doc"] if not t else ATTRS, ["none", "two"] if not t else ["none", "two", "vec", "names"], PATHS, ["module", "function", "imported"]):
        put(s, a, "pub", e, False, (arg_dims(s, e)[0], ("2", 2)), "list", path=p, place=pl)
    return list(out.values())


HEAD = """#![allow(unused_imports)]
extern crate advantage;
extern crate advantage as adv;
use advantage::{adv_dvec, adv_fn, adv_fn_obj, DVector, ADouble, Function};
use forms::{add, mul, Case};
"""


def write(k, fs):
    s = HEAD + "".join(f.source("c%d" % i) for i, f in enumerate(fs))
    s += "fn main() {\n    forms::run(vec![\n" + "".join("        c%d::case(),\n" % i for i in range(len(fs))) + "    ]);\n}\n"
    p = os.path.join(GEN, "s%d.rs" % k)
    if not os.path.exists(p) or open(p).read() != s:
        open(p, "w").write(s)


def cargo(args, log):
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(TARGET, "forms"), RUSTUP_TOOLCHAIN="stable")
    # once as it is developed, once without debug assertions and overflow checks
    ps = []
    for profile in PROFILES:
        env["CARGO_TARGET_DIR"] = os.path.join(TARGET, "forms-" + profile)
        with open(os.path.join(TARGET, log + ("" if profile == "dev" else "-" + profile)), "w") as f:
            ps.append(subprocess.Popen(["cargo", "build", "--profile", profile, "--offline", "--locked", "-q"] + args, cwd=HERE, env=env, stdout=f, stderr=f))
    codes = [p.wait() for p in ps]
    if codes[0] == 0 and any(codes):
        print("macros.sh: only one of the builds fails, see %s" % log, file=sys.stderr)
        sys.exit(3)
    return codes[0]


PROFILES = ("dev", "plain")


def build(k):
    return cargo(["--bin", "s%d" % k], "forms-build-%d.log" % k)


def errors(k):
    s = open(os.path.join(TARGET, "forms-build-%d.log" % k)).read()
    return [l for l in s.split("\n") if l.startswith("error")]


def culprits(k, fs, deadline):
    """forms that do not compile, by bisection"""
    if len(fs) == 1:
        write(k, fs)
        return [(fs[0], "; ".join(errors(k)[:2]))] if build(k) else []
    h = len(fs) // 2
    for part in (fs[:h], fs[h:]):
        if time.time() > deadline:
            return []
        write(k, part)
        if build(k):
            return culprits(k, part, deadline)
    # only together
    return []


def main():
    t0 = time.time()
    tier = sys.argv[1]
    only = None
    if tier == "form":
        tier, only = sys.argv[2], sys.argv[3]
    os.makedirs(GEN, exist_ok=True)
    fs = forms(tier)
    if only:
        fs = [f for f in fs if f.name == only]
        if not fs:
            print("no such form")
            return 3
    for k in range(SHARDS):
        write(k, [] if only else fs[k::SHARDS])
    if only:
        write(0, fs)
    if cargo(["--lib"], "forms-build-lib.log"):
        print(open(os.path.join(TARGET, "forms-build-lib.log")).read()[-3000:])
        print("macros.sh: cannot build against /repo", file=sys.stderr)
        return 3
    bad = []
    if cargo(["--bins"], "forms-build.log"):
        for k in range(SHARDS):
            part = fs[k::SHARDS]
            write(k, part)
            if build(k):
                es = errors(k)
                c = culprits(k, part, t0 + 600)
                bad += [(f.name, "does not compile: " + e) for f, e in c]
                if not c:
                    bad.append(("shard %d" % k, "the forms do not compile together: " + "; ".join(es[:2])))
                write(k, part)
                break
    ran = evals = 0
    if not bad:
        for k, profile in ((k, p) for p in PROFILES for k in range(SHARDS)):
            try:
                p = subprocess.run([os.path.join(TARGET, "forms-" + profile, "debug" if profile == "dev" else profile, "s%d" % k)], capture_output=True, text=True, timeout=300)
                out, code = p.stdout, p.returncode
            except subprocess.TimeoutExpired as e:
                out, code = (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or ""), "no end"
            done = False
            for l in out.split("\n"):
                c = l.split("\t")
                if c[0] == "FAIL":
                    bad.append((c[1], c[2] + ("" if profile == "dev" else " (without debug assertions)")))
                elif c[0] == "DONE":
                    done = True
                    ran += int(c[1])
                    evals += int(c[2])
            if not done:
                bad.append(("shard %d" % k, "ended with %s" % code))
    known = [l.split("sig=", 1)[1].strip() for l in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) if l.startswith("known: property=C20 sig=")]
    code = 0
    hit = set()
    new = []
    for name, msg in bad:
        k = [x for x in known if x and x in "%s: %s" % (name, msg)]
        if k:
            hit.add(k[0])
        else:
            new.append((name, msg))
    for k in sorted(hit):
        print("KNOWN-FINDING: property=C20 %s" % k)
    if only:
        print("\n".join("%s: %s" % b for b in new) or "%s: the property holds" % only)
        return 1 if new else 0
    if new:
        name, msg = new[0]
        r = os.path.join(VERIF, "replays", "C20-form.txt")
        with open(r, "w") as f:
            f.write("property=C20\ntier=%s\nform=%s\nmessage=%s\n" % (tier, name, msg))
            src = [x for x in fs if x.name == name]
            if src:
                f.write("--- the form\n" + src[0].source("c0"))
            f.write("--- replay with: bash %s/bin/macros.sh replay %s\n" % (VERIF, r))
        print("%s: %s (%d forms in all)" % (name, msg, len(new)))
        print("VIOLATION property=C20 replay=%s" % r)
        code = 1
    ev = {
        "property": "C20", "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "coverage": {
            "states": len(fs), "transitions": evals, "traces_validated_against_impl": ran,
            "exhaustive": code == 0,
            "state_meaning": "forms of definition: the product of the options, each expanded by the compiler and executed at all points of the grid",
            "options": {"styles": list(STYLES), "attributes": list(ATTRS), "visibilities": list(VIS), "extra_arguments": {k: v[0] for k, v in EXTRA.items()}, "trailing_comma": [False, True],
                        "bodies": BODIES + WRONG, "paths": list(PATHS), "places": ["module", "function", "imported"]},
            "evaluations": evals, "builds": ["with debug assertions", "without debug assertions and overflow checks"],
            "samples": [f.name for f in fs[:: max(1, len(fs) // 5)]][:5],
        },
        "assumptions": ["the forms with named arguments of dimension 2 and up to 3 destructured arguments stand for other dimensions"],
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    json.dump(ev, open(os.path.join(VERIF, "evidence", "C20.json"), "w"), indent=1)
    print("C20 %s: %d forms, %d run, %d evaluations, %.1f s" % (tier, len(fs), ran, evals, time.time() - t0))
    return code


sys.exit(main())
