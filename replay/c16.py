"""C16 concretely: what bash prints for random variables and functions."""
from common import *


def setup():
    global pieshell, builtins_
    pieshell = load()
    from pieshell.pipeline import builtins as builtins_


PIECES = ['"', "'", "$", "`", "\\", "!", "\n", "\t", " ", "=", ";", "#", "{", "}", "(", ")", "declare", "declare -x X=\"1\"", "f () ", "a", "b", "Z", "0",
          "\\n", "\\$", "$'", "'\\''", "é", "日本", "*", "~", "&", "|", "<", "%s", "\r", "\x1b", "\x01", "\x7f", "\v", "\b", "123", "\\\\", "\\\"", "-x", "\udcff", "\udcc3"]
QUOTED = [p for p in PIECES if all(ch == " " or ch.isprintable() for ch in p)]
RESERVED = set(("if then else elif fi case esac for select while until do done in function time coproc declare unset export local f g").split())


def value(rng, pieces):
    return "".join(rng.choice(pieces) for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8, 20])))


def names(rng, n):
    res = set()
    while len(res) < n:
        w = "PIE_" + "".join(rng.choice("abcXYZ019_") for _ in range(rng.randrange(6)))
        if w not in RESERVED:
            res.add(w)
    return sorted(res)


BODIES = ["echo hi", "declare -x INNER=1", "declare loc", "declare", "local x=\"a'b\"", "export PIE_never=1", "x='it is'", "echo \"it's\"", "echo \"multi\nline\"",
          "cat <<EOF\nit's a \"heredoc\nh () {\ndeclare -x HERE=\"1\"\nEOF\n", "[ $# -gt 0 ]", "echo ${#x} ${x#y} ${x%%z}", "case $x in\na) ;; *) echo '\"' ;;\nesac",
          "while true; do break; done", "for i in 1 2; do echo $i; done", "( cd / )", "{ :; }", "inner () { echo \"'\"; }", "function inner2 { declare -x I2=\"2\"; }",
          "echo $'a\\'b\\n'", "x=`echo \\`echo\\``", "echo a # comment's", "if true; then :; else :; fi", "echo {a,b}", "cat <<< \"}\"", "echo '\n}\ndeclare -x NOT=\"1\"\n'",
          "declare -x MULTI=\"a\nb\"", "let x=1", "select_me='('", "echo \\\"", "[[ $x == *\\'* ]]", "echo '\n# ' \"'\"", "trap \"echo it\\'s\" EXIT", "return 0", "cat <<EOF\n  odd () \n{ \nEOF\n", "cat <<EOF\nodd () \nodd2 () {\nEOF\n",
          "echo '\n\n  two  \n\n'"]
FNAMES = ["foo", "bar", "a.b", "x-y", "n:m", "under_score", "a#b", "é", "f+g", "time", "UP", "_", "q?", "x,y", "a@b", "z/y", "1st"]


def bash(script, env):
    p = subprocess.run(["bash", "--norc", "-c", script], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    return p


def squote(s):
    return "'" + s.replace("'", "'\\''") + "'"


def environment(c):
    return {"PATH": "/usr/bin:/bin", "HOME": c.dir, "LC_ALL": c.locale, "TERM": "dumb"}


def script_for(rng, c, pieces, novalue=True):
    """a script and the exported variables with their values"""
    want, order = {}, []
    lines = []
    for n in names(rng, rng.randrange(1, 7)):
        kind = rng.choice(["export", "export", "export", "later", "integer", "readonly", "none", "upper", "local only"])
        if kind == "none" and not novalue:
            kind = "export"
        v = value(rng, pieces)
        if kind == "local only":
            lines.append("%s=%s" % (n, squote(v)))
            continue
        want[n] = v
        if kind == "export":
            lines.append("export %s=%s" % (n, squote(v)))
        elif kind == "later":
            lines.append("%s=%s; export %s" % (n, squote(v), n))
        elif kind == "integer":
            want[n] = str(rng.randrange(1000))
            lines.append("declare -ix %s=%s" % (n, want[n]))
        elif kind == "readonly":
            lines.append("declare -rx %s=%s" % (n, squote(v)))
        elif kind == "upper":
            want[n] = "abc".upper()
            lines.append("declare -ux %s=abc" % n)
        else:
            want[n] = ""
            lines.append("export %s" % n)
    if rng.random() < .3:
        lines.append("declare -ax PIE_array=(1 \"two three\" $'four\\n')")
    funs = {}
    for f in rng.sample(FNAMES, rng.choice([0, 1, 1, 2, 3, 5])):
        body = "\n".join(rng.choice(BODIES) for _ in range(rng.choice([1, 1, 2, 3])))
        kind = rng.choice(["{", "{", "(", ">"])
        src = {"{": "function %s {\n%s\n}", "(": "function %s (\n%s\n)", ">": "function %s {\n%s\n} > /dev/null 2>&1"}[kind] % (f, body)
        funs[f] = src
        lines.append(src)
    rng.shuffle(lines)
    return "\n".join(lines), want, list(funs)


def printed(c, f):
    """the source bash prints for f alone"""
    return None


for part in range(6):
    @case("declarations %d" % part, timeout=50 if not THOROUGH else 600)
    def _(c, part=part):
        c.locale = ["C.UTF-8", "C", "C.UTF-8"][part % 3]
        quoted = part % 2 == 0
        for n in range(40 if not THOROUGH else 400):
            rng = c.rng
            src, want, funs = script_for(rng, c, QUOTED if quoted else PIECES)
            if c.locale == "C" and quoted:
                want = {k: v for k, v in want.items()}
            file = os.path.join(c.dir, "s")
            with open(file, "w", encoding="utf-8", errors="surrogateescape") as f:
                f.write(src + "\n")
            fl = " ".join("%s" % squote(f) for f in funs)
            p = bash("source ./s; { declare -x; declare -f; } > out; declare -Fx > /dev/null; n=0; for f in %s; do n=$((n+1)); declare -f \"$f\" > f$n; done" % fl, environment(c))
            out = open(os.path.join(c.dir, "out"), encoding="utf-8", errors="surrogateescape", newline="\n").read()
            have = [(i, f) for i, f in enumerate(funs) if os.path.getsize(os.path.join(c.dir, "f%d" % (i + 1)))]
            inp = {"script": src, "locale": c.locale}
            try:
                vars, got = builtins_.parse_declares(out.rstrip("\n") if n % 2 else out)
            except Exception as e:
                c.ok(False, "parses", dict(inp, error=repr(e)))
                continue
            mine = {k: v for k, v in vars.items() if k not in ("PATH", "HOME", "LC_ALL", "TERM", "PWD", "OLDPWD", "SHLVL", "_")}
            c.eq(mine, want, "variables", inp)
            c.eq((vars.get("PATH"), vars.get("HOME"), vars.get("TERM")), ("/usr/bin:/bin", c.dir, "dumb"), "inherited variables", inp)
            inner = {"inner", "inner2"}
            c.eq(set(got) - inner, set(f for i, f in have), "functions", inp)
            for i, f in have:
                text = open(os.path.join(c.dir, "f%d" % (i + 1)), encoding="utf-8", errors="surrogateescape", newline="\n").read()
                c.eq((got.get(f) or "").rstrip("\n"), text.rstrip("\n"), "source of a function", dict(inp, function=f))
            # nothing is lost: run the recorded functions' definitions again
            for i in range(len(funs)):
                os.unlink(os.path.join(c.dir, "f%d" % (i + 1)))
            if len(c.failures) > 3:
                return


@case("every character", timeout=100)
def _(c):
    c.locale = "C.UTF-8"
    chars = [chr(i) for i in range(1, 0x180)] + ["\u2028", "\ufeff", "\U0001F600", "\u0301", "\u200b"]
    texts = ["%s%s%s" % (a, ch, b) for ch in chars for a, b in (("", ""), ("x", "y"), ("\\", "\""), ("$", "\\"))]
    for k in range(0, len(texts), 200):
        part = texts[k:k + 200]
        with open(os.path.join(c.dir, "s"), "w", encoding="utf-8", newline="\n") as f:
            for i, t in enumerate(part):
                f.write("export V%d=%s\n" % (i, squote(t)))
        bash("source ./s; { declare -x; declare -f; } > out", environment(c))
        out = open(os.path.join(c.dir, "out"), encoding="utf-8", errors="surrogateescape", newline="\n").read()
        vars, funs = builtins_.parse_declares(out)
        for i, t in enumerate(part):
            c.eq(vars.get("V%d" % i), t, "value", t)
        c.eq(funs, {}, "functions", None)


@case("older shells", timeout=60)
def _(c):
    # bash before 5 prints line breaks as they are
    def q(v):
        return '"' + re.sub(r'([\\"$`])', r'\\\1', v) + '"'
    for n in range(300 if not THOROUGH else 5000):
        rng = c.rng
        vs = {k: value(rng, PIECES[:20] + ["\n\n", "\ndeclare -x A=\"b\"\n", "\n}\n"]) for k in names(rng, rng.randrange(5))}
        bare = rng.choice([None, "PIE_none"])
        text = ["declare -%s %s=%s" % (rng.choice(["x", "rx", "ix", "xu"]), k, q(v)) for k, v in vs.items()]
        if bare:
            text.append("declare -x PIE_none")
            vs["PIE_none"] = ""
        rng.shuffle(text)
        funs = {"f%d" % i: "f%d () \n{ \n    echo %d;\n    declare -x no=\"1\"\n}" % (i, i) for i in range(rng.randrange(3))}
        data = "\n".join(text + list(funs.values())) + rng.choice(["", "\n", "\n\n"])
        inp = data
        try:
            gv, gf = builtins_.parse_declares(data)
        except Exception as e:
            c.ok(False, "parses", dict(data=data, error=repr(e)))
            continue
        c.eq(gv, vs, "variables", inp)
        c.eq({k: v.rstrip("\n") for k, v in gf.items()}, funs, "functions", inp)
    c.eq(builtins_.parse_declares(""), ({}, {}), "nothing", "")


for part in range(3):
    @case("bashsource %d" % part, timeout=60 if not THOROUGH else 600)
    def _(c, part=part):
        c.locale = "C.UTF-8"
        ex = environment(c)
        for n in range(8 if not THOROUGH else 60):
            rng = c.rng
            src, want, funs = script_for(rng, c, [p for p in PIECES if p not in ("\r",)])
            if rng.random() < .5:
                src = "echo output; echo \"declare -x PIE_out=1\"\n" + src
            files = []
            k = rng.choice([1, 2, 3])
            parts = src.split("\n") if k == 1 else [src]
            special = rng.random() < .6
            path = os.path.join(c.dir, rng.choice(["s.sh", "with space.sh"] if not special else ["it's.sh", "a'b 'c.sh", "100%.sh", "%(HOME)s.sh", "$HOME.sh", "*.sh", 'q"uote".sh', "a;b.sh", "back\\slash.sh"]))
            with open(path, "w", encoding="utf-8", errors="surrogateescape") as f:
                f.write(src + "\n" + rng.choice(["", "false\n"]))
            files.append(pieshell.R(path) if special else path)
            if k == 3:
                # more than one file for an argument, in any order
                d2 = os.path.join(c.dir, "several")
                if not os.path.isdir(d2):
                    os.mkdir(d2)
                for g in "ab":
                    with open(os.path.join(d2, "%s it's.sh" % g), "w") as f:
                        f.write("export PIE_several_%s=\"${PIE_second-first}\"\n" % g)
                files.append(os.path.join(d2, "*.sh"))
                want = dict(want, PIE_several_a="first", PIE_several_b="first")
            if k >= 2:
                p2 = os.path.join(c.dir, "second.sh")
                with open(p2, "w") as f:
                    f.write("export PIE_second=2\nsecondfn() { :; }\n")
                files.append(p2)
                want = dict(want, PIE_second="2")
            env = pieshell.env(exports=dict(ex, PIE_kept="kept", **{"PIE-not.imported": "stays"}))
            before = dict(env._exports)
            env._bashfunctions["oldfn"] = "oldfn () \n{ \n    :\n}"
            inp = {"script": src, "files": [str(getattr(f, "str", f)) for f in files]}
            p = env.bashsource(*files) > os.path.join(c.dir, "stdout")
            p = p > pieshell.Redirect("stderr", os.path.join(c.dir, "stderr"))
            try:
                p.run_interactive()
            except Exception as e:
                # the status is that of the last command, bash reports no job control
                c.ok(False, "runs", dict(inp, error=repr(e)[:300], err=open(os.path.join(c.dir, "stderr")).read()[-300:]))
                continue
            after = dict(env._exports)
            mine = {k: v for k, v in after.items() if k.startswith("PIE")}
            c.eq(mine, dict(want, PIE_kept="kept", **{"PIE-not.imported": "stays"}), "variables", inp)
            c.eq({k: v for k, v in after.items() if k in before and k != "PATH"}, {k: v for k, v in before.items() if k != "PATH"}, "the others are kept", inp)
            c.ok(set(env._bashfunctions) - {"inner", "inner2"} >= set(["oldfn"] + (["secondfn"] if k >= 2 else [])), "functions", inp)
            for f in funs:
                text = env._bashfunctions.get(f)
                if text is None:
                    p = bash("source " + squote(path) + " > /dev/null; declare -F " + squote(f), ex)
                    c.ok(not p.stdout, "every function", dict(inp, function=f))
                else:
                    p = bash("source " + squote(path) + " > /dev/null; declare -f " + squote(f), ex)
                    c.eq(text.rstrip("\n"), p.stdout.decode("utf-8", "surrogateescape").rstrip("\n"), "source of a function", dict(inp, function=f))


main("what bash itself prints for random exported variables (every kind of character, attributes, no value) and functions with bodies that contain quotes, comments, here documents and declarations, in two locales, against the values and sources bash has; whole bashsource pipelines against the environment they leave", setup)
