"""Mechanical extraction of for_each / enumerate_for_each / fold for the modular proof of C12.

Taken from /repo on every run:
- the text of src/iter/default_fns/for_each.rs and fold.rs (everything but inner `mod tests`)
- the default methods for_each, enumerate_for_each and fold of the trait ConcurrentIter (src/iter/con_iter.rs)
What is changed: comments are dropped; `for P in E B` becomes
`let mut it = IntoIterator::into_iter(E); while let Some(P) = it.next() B`, the definition of `for`; `while C B` becomes
`loop { if !C { break } B }`; and the loop rule is applied to each loop: its invariant (each/src/ghost.rs) is asserted on entry, the
ghost state and the mutable variables in scope are made arbitrary, the invariant is assumed, and it is asserted after one iteration.
`crate::ConcurrentIter` is the trait of each/src/lib.rs, whose pulls are the contract of the pulls.
"""
import os
import re


class Unsupported(Exception):
    pass


def strip_comments(s):
    out, i, n = [], 0, len(s)
    while i < n:
        if s.startswith("//", i):
            while i < n and s[i] != "\n":
                i += 1
        elif s.startswith("/*", i):
            d = 1
            i += 2
            while i < n and d:
                if s.startswith("/*", i):
                    d += 1
                    i += 2
                elif s.startswith("*/", i):
                    d -= 1
                    i += 2
                else:
                    i += 1
        elif s[i] == '"':
            j = i + 1
            while s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            out.append(s[i:j + 1])
            i = j + 1
        elif re.match(r"'(\\.[^']*|[^'\\])'", s[i:]):
            m = re.match(r"'(\\.[^']*|[^'\\])'", s[i:])
            out.append(m.group(0))
            i += m.end()
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


TOKEN = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.[^\']*|[^\'\\])\'|\'?[A-Za-z_]\w*|\d\w*|=>|->|::|\s+|.', re.S)


def tokens(s):
    return TOKEN.findall(s)


OPEN, CLOSE = "([{", ")]}"


def match_close(t, i):
    """index of the token closing the group opened at i"""
    d = 0
    while i < len(t):
        if t[i] in OPEN:
            d += 1
        elif t[i] in CLOSE:
            d -= 1
            if d == 0:
                return i
        i += 1
    raise Unsupported("unbalanced")


def find(t, i, what):
    """first token `what` from i on at depth 0"""
    d = 0
    while i < len(t):
        if d == 0 and t[i] == what:
            return i
        if t[i] in OPEN:
            d += 1
        elif t[i] in CLOSE:
            d -= 1
        i += 1
    raise Unsupported(f"no {what}")


class Fn:
    def __init__(self):
        self.n = 0


# state which the loop rule would not make arbitrary
BANNED = re.compile(r"\b(unsafe|static|Cell|RefCell|UnsafeCell|OnceCell|Atomic\w*|Mutex|RwLock|Rc|Arc|Box|move)\b|macro_rules")


def admit(text):
    m = BANNED.search(text)
    if m:
        raise Unsupported(f"{m.group(0)} in the extracted text")
    # closures with side effects on variables of the function
    for m in re.finditer(r"\|[^|;{}]*\|", text):
        rest = text[m.end():m.end() + 400]
        t = tokens(rest)
        while t and t[0].isspace():
            t.pop(0)
        if t and t[0] == "{":
            body = "".join(t[:match_close(t, 0) + 1])
        else:
            body, d = "", 0
            for y in t:
                d += (y in OPEN) - (y in CLOSE)
                if d < 0 or (d == 0 and y in ",;"):
                    break
                body += y
        if re.search(r"[^=!<>]=[^=>]", body):
            raise Unsupported("closure with an assignment")


def annotate(t, depth, names, st):
    """token list of a block -> text with annotated loops; `names`: mutable variables in scope"""
    out, i = [], 0
    names = list(names)
    while i < len(t):
        x = t[i]
        if x == "mut":
            j = i + 1
            while t[j].isspace():
                j += 1
            prev = [y for y in t[max(0, i - 3):i] if not y.isspace()]
            if re.match(r"[A-Za-z_]\w*$", t[j]) and not (prev and prev[-1] in ("&", "*", "ref")):
                names.append(t[j])
            out.append(x)
            i += 1
        elif x in ("while", "loop", "for") and not (x == "for" and next(y for y in t[i + 1:] if not y.isspace()) == "<"):
            prev = [y for y in t[max(0, i - 2):i] if not y.isspace()]
            if prev and prev[-1] == ":":
                raise Unsupported("labelled loop")
            b = find(t, i + 1, "{")
            e = match_close(t, b)
            head = "".join(t[i + 1:b])
            k = st.n
            st.n += 1
            mine = list(names)
            pre = ""
            if x == "for":
                m = find(t[i + 1:b], 0, "in")
                pat, ex = "".join(t[i + 1:b][:m]), "".join(t[i + 1:b][m + 1:])
                pre = f"let mut __it{k} = ::core::iter::IntoIterator::into_iter({ex});"
                mine.append(f"__it{k}")
                x, head = "while", f" let Some({pat}) = __it{k}.next() "
            body = annotate(t[b + 1:e], depth + 1, mine, st)
            depth_ = "0" if depth == 0 else "1"
            havoc = "".join(f" crate::havoc!({v});" for v in dict.fromkeys(mine))
            test = re.match(r"\s*let\b(.*?[^=!<>])=([^=].*)$", head, re.S)
            if x == "while" and test:
                body = f"match {test.group(2)} {{ {test.group(1)} => {{{body}}} _ => break }}"
            elif x == "while":
                body = f"if !({head}) {{ break }} {body}"
            out.append(f"{{ {pre} let mut __h{k} = crate::ghost::Head::<{depth_}>::entry();{havoc} loop {{ __h{k}.head(); {body} }} }}")
            i = e + 1
        elif x == "{":
            e = match_close(t, i)
            out.append("{" + annotate(t[i + 1:e], depth, names, st) + "}")
            i = e + 1
        else:
            out.append(x)
            i += 1
    return "".join(out)


def annotate_items(text, st):
    """annotates the bodies of all functions of a text without comments"""
    t = tokens(text)
    out, i = [], 0
    while i < len(t):
        if t[i] == "fn":
            b = find(t, i, "{")
            semi = None
            try:
                semi = find(t, i, ";")
            except Unsupported:
                pass
            if semi is not None and semi < b:
                out.append(t[i])
                i += 1
                continue
            e = match_close(t, b)
            sig = t[i:b]
            names = [sig[j + 2] for j in range(len(sig) - 2) if sig[j] == "mut" and sig[j + 1].isspace() and
                     not [y for y in sig[max(0, j - 2):j] if not y.isspace()][-1:] == ["&"]]
            out.append("".join(sig) + "{" + annotate(t[b + 1:e], 0, names, st) + "}")
            i = e + 1
        else:
            out.append(t[i])
            i += 1
    return "".join(out)


def drop_tests(text):
    return re.sub(r"#\[cfg\(test\)\]\s*(mod\s+\w+\s*;|mod\s+\w+\s*\{.*\}\s*$)", "", text, flags=re.S)


METHODS = ("for_each", "enumerate_for_each", "fold")


def method(text, name):
    m = re.search(r"\bfn\s+" + name + r"\b", text)
    if not m:
        raise Unsupported(f"ConcurrentIter::{name} not found")
    t = tokens(text[m.start():])
    b, semi = find(t, 0, "{"), None
    try:
        semi = find(t, 0, ";")
    except Unsupported:
        pass
    if semi is not None and semi < b:
        raise Unsupported(f"ConcurrentIter::{name} has no default")
    return "".join(t[:match_close(t, b) + 1])


def extract(repo, out):
    st = Fn()
    src = os.path.join(repo, "src", "iter")
    os.makedirs(os.path.join(out, "default_fns"), exist_ok=True)
    d = os.path.join(src, "default_fns")
    mods = []
    for f in sorted(os.listdir(d)):
        if f.endswith(".rs"):
            text = drop_tests(strip_comments(open(os.path.join(d, f)).read()))
            if f != "mod.rs":
                admit(text)
                text = annotate_items(text, st)
            open(os.path.join(out, "default_fns", f), "w").write(text)
            mods.append(f)
    con = drop_tests(strip_comments(open(os.path.join(src, "con_iter.rs")).read()))
    methods = [method(con, m) for m in METHODS]
    for m in methods:
        admit(m)
    text = "\n".join(annotate_items(m, st) for m in methods)
    # no implementor replaces the default methods
    for root, _, files in os.walk(src):
        for f in files:
            p = os.path.join(root, f)
            if f.endswith(".rs") and "/tests" not in p and "default_fns" not in p and f != "con_iter.rs":
                s = drop_tests(strip_comments(open(p).read()))
                for m in METHODS:
                    if re.search(r"\bfn\s+" + m + r"\s*(<[^(]*)?\(\s*&self\s*,\s*\w+\s*:\s*usize", s):
                        raise Unsupported(f"{f} replaces {m}")
    return text, st.n


def write(repo, crate):
    """completes a work copy of the crate each/"""
    src = os.path.join(crate, "src")
    text, loops = extract(repo, src)
    p = os.path.join(src, "lib.rs")
    s = open(p).read()
    assert "/*EXTRACTED*/" in s
    open(p, "w").write(s.replace("/*EXTRACTED*/", text))
    return loops


if __name__ == "__main__":
    import shutil
    import sys
    here = os.path.dirname(os.path.abspath(__file__))
    shutil.rmtree(sys.argv[1], ignore_errors=True)
    shutil.copytree(os.path.join(here, "each"), sys.argv[1])
    print(write(os.environ.get("VERIF_REPO", "/repo"), sys.argv[1]), "loops")
