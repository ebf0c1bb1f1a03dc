"""Command-line and environment settings (P23): value graphs over abstract
environment variables, clap matches and number parsers."""
from core import *
import persist

CL = "pi_rs_cli_utils::"
FLAGS = CL + "CLIFlags"
VARS = {"elem_size": "PIR_ELEM_SIZE_BITS", "lwe_dim": "PIR_LWE_DIM", "plaintext_bits": "PIR_PLAINTEXT_BITS", "m": "PIR_NUMBER_OF_ELEMENTS_EXP", "offline": "BENCH_DB_GEN", "keyword": "BENCH_KV"}
ARGS = {"m": ("matrix_height", "m", "16"), "elem_size": ("ele_size", "e", "13"), "plaintext_bits": ("plaintext_bits", "p", "10"), "lwe_dim": ("dim", "d", "2048")}
EXP = {"env": {"m"}, "cli": {"m", "elem_size"}}
BOOL = {"offline", "keyword"}
UNS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64}
SIG = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64}


def pstr(x):
    return x[1] if isinstance(x, tuple) and len(x) == 2 and x[0] == "str" and isinstance(x[1], str) else None


def okv(v):
    return ("agg", RES, 0, (v,))


def errv(v=("opq", 1)):
    return ("agg", RES, 1, (v,))


def number(ty):
    def h(E, xs, t):
        s = pstr(xs[0])
        if s is None:
            raise ev.Opaque("parsing something that is not a string")
        d = s[1:] if s[:1] == "+" or (ty in SIG and s[:1] == "-") else s
        if not d or not d.isascii() or not d.isdigit():
            return errv()
        n = int(d) * (-1 if s[0] == "-" else 1)
        w = UNS.get(ty) or SIG[ty]
        lo, hi = (0, 1 << w) if ty in UNS else (-(1 << w - 1), 1 << w - 1)
        return okv(n % (1 << w)) if lo <= n < hi else errv()
    return h


def boolean(E, xs, t):
    s = pstr(xs[0])
    if s is None:
        raise ev.Opaque("parsing something that is not a string")
    return okv(True) if s == "true" else okv(False) if s == "false" else errv()


class Clap:
    """an App is ("app", (arg, ...)); an Arg is ("arg", {property: value})"""

    def __init__(self, given):
        self.given = given  # long name -> value
        self.bad = None

    def hooks(self, E):
        H = E.hooks
        APP, ARG, MAT = "clap::app::App::<'a, 'b>::", "clap::args::arg::Arg::<'a, 'b>::", "clap::args::arg_matches::ArgMatches::<'a>::"
        H[APP + "new"] = H[APP + "with_defaults"] = lambda E, xs, t: ("clapp", ())
        for n in ("version", "author", "about", "name", "bin_name", "long_about", "long_version", "help", "usage", "template", "setting", "before_help", "after_help"):
            H[APP + n] = lambda E, xs, t: xs[0]
        H[APP + "arg"] = lambda E, xs, t: ("clapp", xs[0][1] + (xs[1],))
        H[APP + "args"] = lambda E, xs, t: ("clapp", xs[0][1] + tuple(xs[1]))
        H[ARG + "with_name"] = lambda E, xs, t: ("carg", (("name", xs[0]),))
        for n in ("short", "long", "takes_value", "default_value", "required", "possible_values", "multiple", "env", "hidden", "number_of_values", "overrides_with", "alias", "conflicts_with", "default_value_if"):
            H[ARG + n] = lambda E, xs, t, n=n: ("carg", xs[0][1] + ((n, xs[1] if len(xs) > 1 else True),))
        for n in ("help", "long_help", "value_name", "display_order"):
            H[ARG + n] = lambda E, xs, t: xs[0]
        H[APP + "get_matches"] = self.matches
        H[MAT + "value_of"] = self.value
        H[MAT + "is_present"] = lambda E, xs, t: self.value(E, xs, t)[2] == 1

    def matches(self, E, xs, t):
        out = []
        for a in xs[0][1]:
            d = dict(a[1])
            unk = set(d) - {"name", "short", "long", "takes_value", "default_value", "required"}
            if unk:
                raise ev.Opaque("flag property " + ", ".join(sorted(unk)))
            lg, sh = pstr(d.get("long")), pstr(d.get("short"))
            v = [x for n, x in self.given if n == "--" + str(lg) or n == "-" + str(sh).lstrip("-")]
            if v and d.get("takes_value") is False and "default_value" not in d:
                raise ev.Opaque("flag without a value")
            out.append((d["name"], ("str", v[-1]) if v else d.get("default_value")))
        names = {"--" + str(pstr(dict(a[1]).get("long"))) for a in xs[0][1]} | {"-" + str(pstr(dict(a[1]).get("short"))).lstrip("-") for a in xs[0][1]}
        for n, _ in self.given:
            if n not in names:
                self.bad = n
        return ("cmat", tuple(out))

    def value(self, E, xs, t):
        for n, v in xs[0][1]:
            if n == xs[1]:
                return ("agg", OPT, 1, (v,)) if v is not None else ("agg", OPT, 0, ())
        return ("agg", OPT, 0, ())


def base(E):
    for ty in list(UNS) + list(SIG):
        E.hooks["parse:" + ty] = number(ty)
    E.hooks["parse:bool"] = boolean
    E.hooks["parse:alloc::string::String"] = lambda E, xs, t: okv(xs[0])
    for w in (8, 16, 32, 64, 128):
        E.hooks.setdefault(f"parse:u{w}", number(f"u{w}"))
    return E


def run(s, E, config="dev"):
    """the value, or ('stops',) when a panic site is reached"""
    t = persist.traps(s, E, skip="overflow_" if config == "release" else None)
    if t:
        return ("stops", t)
    for e in s.events:
        if e["kind"] == "call" and not e["loops"] and e["path"].split("::")[-1] in ("exit", "abort", "panic_fmt", "exit_with_code") and E.ev(e["pc"]):
            return ("stops", e["path"])
    return E.ev(s.ret)


NUMS = ("0", "1", "7", "10", "64", "255", "256", "2048", "65536", "4294967295", "4294967296", "4294967297", "18446744073709551615", "007", "+5")
BADN = ("", " 5", "5 ", "-1", "abc", "1e3", "0x10", "18446744073709551616", "5.0", "true", "1_000")
EXPS = ("0", "1", "5", "16", "20", "31", "32", "33", "40", "63", "+3", "08")
BADE = BADN + ("64", "65", "100", "255", "256", "4294967295", "4294967296", "4294967301")


def pick(R, f, where):
    """(text, value or None when malformed)"""
    bad = R.randrange(12) == 0
    if f in BOOL:
        if bad:
            x = R.choice(("1", "0", "True", "yes", "", "TRUE", "on", " true", "false "))
            return x, None
        x = R.choice(("true", "false"))
        return x, x == "true"
    if f in EXP[where]:
        x = R.choice(BADE if bad else EXPS)
        return x, None if bad else 1 << int(x)
    x = R.choice(BADN if bad else NUMS)
    return x, None if bad else int(x)


def P23(c):
    """each variable and flag sets the setting of its name"""
    for config in ("dev", "release"):
        tag = "" if config == "dev" else " (release profile)"

        def env(config=config, tag=tag):
            key = CL + "parse_from_env"
            s = summary(key, config=config)
            fs = [f["name"] for f in fields_of(FLAGS)]

            def one(sd):
                R = rng(sd, "env")
                want, vals = {}, {}
                for f, n in VARS.items():
                    vals[n], want[f] = pick(R, f, "env")
                gone = R.choice(list(VARS.values())) if R.randrange(4) == 0 else None
                if gone:
                    del vals[gone]
                E = base(ev.Env(sd, {}))
                read = set()

                def var(E, xs, t):
                    n = pstr(xs[0])
                    read.add(n)
                    return okv(("str", vals[n])) if n in vals else errv()
                E.hooks["std::env::var"] = E.hooks["std::env::var_os"] = var
                v = run(s, E, config)
                bad = [f for f, x in want.items() if x is None or VARS[f] == gone]
                if v[0] == "stops":
                    return None if bad else f"stops on well-formed settings {vals}: {v[1]}"
                if bad:
                    return f"{VARS[bad[0]]} is {'missing' if VARS[bad[0]] == gone else 'malformed: ' + repr(vals[VARS[bad[0]]])}, but {bad[0]} = {v[3][fs.index(bad[0])]} is used"
                for f in VARS:
                    if f in fs and v[3][fs.index(f)] != want[f]:
                        return f"{VARS[f]}={vals[VARS[f]]} gives {f} = {v[3][fs.index(f)]}, not {want[f]}"
            c.sampled("each environment variable sets its setting" + tag, key, "value graph over abstract environment: missing or malformed stops, else fields = parsed values", one, 4 * c.tries)
        c.guard("each environment variable sets its setting" + tag, CL + "parse_from_env", env)

        def cli(config=config, tag=tag):
            key = CL + "parse_cli_flags"
            s = summary(key, config=config)
            fs = [f["name"] for f in fields_of(FLAGS)]

            def one(sd):
                R = rng(sd, "cli")
                given, want, txt = [], {}, {}
                for f, (lg, sh, dflt) in ARGS.items():
                    if R.randrange(3) == 0:
                        txt[f] = dflt
                        want[f] = 1 << int(dflt) if f in EXP["cli"] else int(dflt)
                    else:
                        txt[f], want[f] = pick(R, f, "cli")
                        given.append((R.choice(("--" + lg, "-" + sh)), txt[f]))
                E = base(ev.Env(sd, {}))
                cl = Clap(given)
                cl.hooks(E)
                v = run(s, E, config)
                if cl.bad:
                    return f"{cl.bad} is not a flag"
                bad = [f for f, x in want.items() if x is None]
                if v[0] == "stops":
                    return None if bad else f"stops on well-formed flags {given}: {v[1]}"
                if bad:
                    return f"flag for {bad[0]} is malformed ({txt[bad[0]]!r}), but {v[3][fs.index(bad[0])]} is used"
                for f in ARGS:
                    if f in fs and v[3][fs.index(f)] != want[f]:
                        return f"{ARGS[f][0]} = {txt[f]} gives {f} = {v[3][fs.index(f)]}, not {want[f]}"
                for f in BOOL:
                    if f in fs and v[3][fs.index(f)] is not True:
                        return f"{f} is off without a flag for it"
            c.sampled("each flag sets its setting" + tag, key, "value graph over an abstract argument parser: malformed stops, else fields = parsed values or documented defaults", one, 4 * c.tries)
        c.guard("each flag sets its setting" + tag, CL + "parse_cli_flags", cli)

        def parsers(config=config, tag=tag):
            for key, good, bad, f in ((CL + "parse_exp_to_usize", EXPS, BADE, lambda x: 1 << int(x)), (CL + "parse_val_to_bool", ("true", "false"), ("1", "0", "True", "yes", "", " true", "no", "t"), lambda x: x == "true")):
                s = summary(key, config=config)
                st, d = "proved", ""
                n = 0
                for x in list(good) + list(bad):
                    E = base(ev.Env(0, {"a0": ("str", x)}))
                    try:
                        v = run(s, E, config)
                    except (ev.Opaque, ev.Partial, ev.Big) as e:
                        st, d = "undecided", str(e)
                        break
                    n += 1
                    if x in bad and v[:1] != ("stops",) if isinstance(v, tuple) else x in bad:
                        st, d = "VIOLATED", f"{x!r} is malformed or out of range, but gives {v}"
                        break
                    if x in good and (isinstance(v, tuple) or v != f(x)):
                        st, d = "VIOLATED", f"{x!r} gives {v}, not {f(x)}"
                        break
                c.rec(key.split("::")[-1] + ": exact value, malformed text stops" + tag, key, "value graph at every class of text", "agreed" if st == "proved" else st, d or f"{n} classes")
        c.guard("parsers" + tag, CL + "parse_exp_to_usize", parsers)
