"""Front end: turns the sources of /repo into Python ASTs on every run.

.py files are parsed as they are.  .pyx files go through a mechanical, purely
syntactic translation that only removes Cython's static typing:

  cdef class C(B):            -> class C(B):
  cdef/cpdef T f(T a, b=0) ..:-> def f(a, b=0):
  def f(self, T a: ann = x)   -> def f(self, a = x)
  cdef T x / cdef: T x        -> dropped
  cdef T x = e                -> x = e
  <T>expr                     -> expr
  from m cimport n            -> from m import n     (cimport m -> dropped)

What is lost: C integer widths (integers are mathematical here), implicit type
checks of typed arguments, C pointers (functions that use them do not translate
and are reported as such), nogil / except clauses, decorators on cdef classes.
"""

import ast
import io
import os
import re
import tokenize


class TranslationError(Exception):
    pass


def _split_top(s, sep=","):
    out, depth, cur, quote = [], 0, "", None
    i = 0
    while i < len(s):
        c = s[i]
        if quote:
            cur += c
            if c == "\\":
                i += 1
                if i < len(s):
                    cur += s[i]
            elif c == quote:
                quote = None
        elif c in "'\"":
            quote = c
            cur += c
        elif c in "([{":
            depth += 1
            cur += c
        elif c in ")]}":
            depth -= 1
            cur += c
        elif c == sep and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
        i += 1
    out.append(cur)
    return out


def _find_top(s, chars):
    depth, quote = 0, None
    i = 0
    while i < len(s):
        c = s[i]
        if quote:
            if c == "\\":
                i += 1
            elif c == quote:
                quote = None
        elif c in "'\"":
            quote = c
        elif c in chars and depth == 0:
            if c == "=" and (s[i + 1 : i + 2] == "=" or s[i - 1 : i] in "=!<>"):
                i += 1
            else:
                return i
        elif c in "([{":
            depth += 1
        elif c in ")]}":
            depth -= 1
        i += 1
    return -1


def _strip_param(p):
    p = p.strip()
    if not p or p in ("*", "/"):
        return p
    star = ""
    while p.startswith("*"):
        star += "*"
        p = p[1:].strip()
    eq = _find_top(p, "=")
    default = None
    if eq >= 0:
        p, default = p[:eq].strip(), p[eq + 1 :].strip()
    col = _find_top(p, ":")
    if col >= 0:
        p = p[:col].strip()
    name = re.findall(r"[A-Za-z_]\w*", p)[-1]
    return star + name + ("" if default is None else "=" + default)


def _strip_comments(text):
    """remove comments from a (multi-line) logical line, keep line count"""
    out = []
    last = (1, 0)
    try:
        toks = list(tokenize.generate_tokens(io.StringIO(text).readline))
    except (tokenize.TokenError, IndentationError):
        return text
    lines = text.split("\n")
    for t in toks:
        if t.type == tokenize.COMMENT:
            r, c = t.start
            lines[r - 1] = lines[r - 1][:c].rstrip()
    return "\n".join(lines)


_CAST = re.compile(
    r"(?<![\w\)\]])\s?<\s*(?:unsigned\s+)?[A-Za-z_]\w*\s*\**\s*>&?(?=\s*[\w\(<])"
)


def _strip_casts(s):
    prev = None
    while prev != s:
        prev = s
        s = _CAST.sub(lambda m: " " if m.group(0)[0].isspace() else "", s)
    return re.sub(r"(?<=[(\[])&(?=\()", "", s)


_FUNC_HEAD = re.compile(r"^(?:async\s+)?(?:def|cdef|cpdef)\b")


def _logical_lines(src):
    """yield (first_lineno, text, nlines) of logical lines, comments/blank included"""
    lines = src.split("\n")
    i = 0
    while i < len(lines):
        depth = 0
        j = i
        quote = None
        while True:
            line = lines[j]
            k = 0
            cont = False
            while k < len(line):
                c = line[k]
                if quote:
                    if c == "\\":
                        k += 1
                    elif line.startswith(quote, k):
                        k += len(quote) - 1
                        quote = None
                elif c == "#":
                    break
                elif line.startswith('"""', k) or line.startswith("'''", k):
                    quote = line[k : k + 3]
                    k += 2
                elif c in "'\"":
                    quote = c
                elif c in "([{":
                    depth += 1
                elif c in ")]}":
                    depth -= 1
                elif c == "\\" and k == len(line) - 1:
                    cont = True
                k += 1
            if quote and len(quote) == 1:
                quote = None
            if depth > 0 or quote or cont:
                j += 1
                if j >= len(lines):
                    break
            else:
                break
        j = min(j, len(lines) - 1)
        yield i, "\n".join(lines[i : j + 1]), j - i + 1
        i = j + 1


def desugar_pyx(src, path="<pyx>"):
    """returns (python source with the same number of lines, list of drops)"""
    out = []
    drops = []
    block_indent = None  # inside a ``cdef:`` block
    for ln, text, n in _logical_lines(src):
        stripped = text.strip()
        indent = len(text) - len(text.lstrip(" ")) if stripped else None
        if block_indent is not None and stripped and not stripped.startswith("#"):
            if indent <= block_indent:
                block_indent = None
        if not stripped or stripped.startswith("#"):
            out.append(text)
            continue
        is_doc = stripped.startswith(('"""', "'''"))
        if is_doc:
            out.append(text)
            continue
        pad = " " * indent
        new = None
        code = _strip_comments(text)
        flat = re.sub(r"\\\n", " ", code)
        flat1 = re.sub(r"\s*\n\s*", " ", flat).strip()
        if block_indent is not None:
            decl = flat1
            pad = " " * block_indent
            new = _var_decl(decl, pad, drops, ln, path)
        elif re.match(r"^(from\s+\S+\s+)?cimport\b", flat1):
            if flat1.startswith("from"):
                new = pad + flat1.replace(" cimport ", " import ", 1)
            else:
                new = pad + "pass"
            drops.append((path, ln + 1, flat1))
        elif re.match(r"^cdef\s+class\b", flat1):
            new = pad + re.sub(r"^cdef\s+", "", flat1)
            drops.append((path, ln + 1, "cdef class -> class"))
        elif re.match(r"^cdef\s*:$", flat1):
            block_indent = indent
            new = pad + "pass"
        elif re.match(r"^cdef\s+extern\b", flat1):
            raise TranslationError(f"{path}:{ln+1}: cdef extern")
        elif _FUNC_HEAD.match(flat1) and _is_func_head(flat1):
            new = pad + _func_head(flat1)
            # one-line bodies do not occur
        elif re.match(r"^cdef\b", flat1):
            new = _var_decl(re.sub(r"^cdef\s+", "", flat1), pad, drops, ln, path)
        elif re.match(r"^return\b|.*<", flat1, re.S) and "<" in code:
            new = _strip_casts(code)
        if new is None:
            new = text
        elif "<" in new and not _FUNC_HEAD.match(new.strip()):
            new = _strip_casts(new)
        k = new.count("\n")
        out.append(new + "\n" * (n - 1 - k))
    return "\n".join(out), drops


def _is_func_head(s):
    m = re.match(r"^(?:async\s+)?(def|cdef|cpdef)\b(.*)$", s, re.S)
    rest = m.group(2)
    if m.group(1) == "def":
        return True
    p = rest.find("(")
    if p < 0:
        return False
    e = _find_top(rest, "=")
    if 0 <= e < p:
        return False
    return rest.rstrip().endswith(":")


def _func_head(s):
    m = re.match(r"^(async\s+)?(def|cdef|cpdef)\s+(.*)$", s, re.S)
    rest = m.group(3)
    p = rest.index("(")
    name = re.findall(r"[A-Za-z_]\w*", rest[:p])[-1]
    depth = 0
    for q in range(p, len(rest)):
        if rest[q] in "([{":
            depth += 1
        elif rest[q] in ")]}":
            depth -= 1
            if depth == 0:
                break
    params = [_strip_param(x) for x in _split_top(rest[p + 1 : q])]
    params = [x for x in params if x]
    return f"{m.group(1) or ''}def {name}({', '.join(params)}):"


def _var_decl(decl, pad, drops, ln, path):
    decl = re.sub(r"^(public|readonly|inline)\s+", "", decl.strip())
    # T name [= e] {, name [= e]}
    m = re.match(r"^((?:unsigned\s+)?(?:long\s+(?=long\b))?[A-Za-z_][\w.]*(?:\[[^\]]*\])?\s*\**\s*)(.*)$", decl, re.S)
    if not m or not m.group(2).strip():
        drops.append((path, ln + 1, "cdef " + decl))
        return pad + "pass"
    rest = m.group(2)
    if rest.startswith("="):
        return pad + m.group(1).strip() + " " + rest
    keep = []
    for part in _split_top(rest):
        e = _find_top(part, "=")
        if e >= 0:
            keep.append(part[:e].strip().lstrip("*") + " = " + part[e + 1 :].strip())
        else:
            drops.append((path, ln + 1, "cdef " + decl))
    return pad + ("; ".join(keep) if keep else "pass")


class Source:
    """one module of /repo/python/xoscar"""

    def __init__(self, root, modname):
        self.modname = modname
        rel = modname.split(".")
        base = os.path.join(root, *rel)
        self.is_pkg = False
        for cand in (base + ".pyx", base + ".py", os.path.join(base, "__init__.py")):
            if os.path.exists(cand):
                self.path = cand
                self.is_pkg = cand.endswith("__init__.py")
                break
        else:
            raise FileNotFoundError(modname)
        with open(self.path) as f:
            self.text = f.read()
        self.drops = []
        if self.path.endswith(".pyx"):
            py, self.drops = desugar_pyx(self.text, os.path.basename(self.path))
            self.pytext = py
        else:
            self.pytext = self.text
        self.tree = ast.parse(self.pytext, self.path)


if __name__ == "__main__":
    import sys

    s = desugar_pyx(open(sys.argv[1]).read(), sys.argv[1])[0]
    try:
        ast.parse(s)
        print("ok", file=sys.stderr)
    except SyntaxError as e:
        print(e, file=sys.stderr)
    print(s)
