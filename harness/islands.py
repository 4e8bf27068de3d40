"""A small language for the code of uncached islands: its Python source and its reference meaning."""

STYLE = {"base": "", "lead": "\n", "eol": "\n", "blank": 0, "trail": "", "tail": ""}


def expr_src(e):
    k = e[0]
    if k == "v":
        return e[1]
    if k == "lit":
        return repr(e[1])
    if k == "cat":
        return "str(%s) + str(%s)" % (expr_src(e[1]), expr_src(e[2]))
    raise ValueError(k)


def expr_val(e, env):
    k = e[0]
    if k == "v":
        return env[e[1]]
    if k == "lit":
        return e[1]
    if k == "cat":
        return str(expr_val(e[1], env)) + str(expr_val(e[2], env))
    raise ValueError(k)


def lines(prog, unit, depth, out):
    pad = unit * depth
    for s in prog:
        k = s[0]
        if k == "echo":
            out.append(pad + "echo(%s)" % ", ".join(expr_src(e) for e in s[1]))
        elif k == "echo_lines":             # continuation lines, less indented than the code
            out.append(pad + "echo(")
            for e in s[1]:
                out.append([unit * s[2] + expr_src(e) + ","])
            out.append([")"])
        elif k == "set":
            out.append(pad + "%s = %s" % (s[1], expr_src(s[2])))
        elif k == "if":
            out.append(pad + "if %s:" % expr_src(s[1]))
            lines(s[2], unit, depth + 1, out)
            if s[3]:
                out.append(pad + "else:")
                lines(s[3], unit, depth + 1, out)
        elif k == "for":
            out.append(pad + "for %s in %r:" % (s[1], s[2]))
            lines(s[3], unit, depth + 1, out)
        elif k == "comment":
            out.append(["# note"] if s[1] else pad + "# note")
        elif k == "gen":                    # a comprehension and a function using a variable of the island
            out.append(pad + "echo(''.join([str(i) + str(%s) for i in %r]))" % (s[1], s[2]))
        elif k == "def":
            out.append(pad + "def fn(arg):")
            out.append(pad + unit + "return str(arg) + str(%s)" % s[1])
            out.append(pad + "echo(fn(%s))" % expr_src(s[2]))
        elif k == "try":                    # a variable which may be missing
            out.append(pad + "try:")
            out.append(pad + unit + "echo(%s)" % s[1])
            out.append(pad + "except NameError:")
            out.append(pad + unit + "echo('?')")
        elif k == "tick":
            out.append(pad + "tick(%d)" % s[1])
        elif k == "island":
            out.append(pad + "echo(nocache.start(%s), %r, nocache.end())" % (
                ", ".join("%s=%s" % (n, expr_src(e)) for n, e in s[1]), source(s[2], s[3])))
        else:
            raise ValueError(k)


def source(prog, style):
    """Python source of the program; items of lines() in a list keep their own indentation."""
    out = []
    lines(prog, style.get("unit", "    "), 0, out)
    st = dict(STYLE, **style)
    res = []
    for i, l in enumerate(out):
        if st["blank"] and i % st["blank"] == 0:
            res.append(st["trail"])
        res.append((l[0] if isinstance(l, list) else st["base"] + l) + st["trail"])
    return st["lead"] + st["eol"].join(res) + st["tail"]


def run(prog, env, ticks, out):
    """Appends strings and [captured, prog] (islands written by the program) to out."""
    for s in prog:
        k = s[0]
        if k in ("echo", "echo_lines"):
            out.extend(str(expr_val(e, env)) for e in s[1])
        elif k == "set":
            env[s[1]] = expr_val(s[2], env)
        elif k == "if":
            run(s[2] if expr_val(s[1], env) else s[3], env, ticks, out)
        elif k == "for":
            for i in s[2]:
                env[s[1]] = i
                run(s[3], env, ticks, out)
        elif k == "gen":
            out.append("".join(str(i) + str(env[s[1]]) for i in s[2]))
        elif k == "def":
            out.append(str(expr_val(s[2], env)) + str(env[s[1]]))
        elif k == "try":
            out.append(str(env.get(s[1], "?")))
        elif k == "tick":
            ticks.append(s[1])
        elif k == "island":
            out.append([{n: expr_val(e, env) for n, e in s[1]}, s[2]])


def deliver(pieces, data, ticks):
    """Text of the pieces (strings and [captured, prog]) with the current variables."""
    res = []
    for p in pieces:
        if isinstance(p, str):
            res.append(p)
        else:
            out = []
            run(p[1], dict(data, **p[0]), ticks, out)
            res.append(deliver(out, data, ticks) if any(not isinstance(o, str) for o in out) else "".join(out))
    return "".join(res)
