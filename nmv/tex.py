"""Reading the LaTeX form of an operator as a tensor network."""
import re

TOKEN = re.compile(r"\s+|\\cdot|\\epsilon|\\delta|\\dagger|\\bar|\\tilde|\\dot|\\mathcal|\\mathrm|\\[a-zA-Z]+|[A-Za-z]|[0-9]+|[{}()^_,']")


class Bad(Exception):
    pass


def tokens(s, names=()):
    """names: field names of several letters"""
    out, i = [], 0
    long = re.compile("|".join(map(re.escape, sorted(names, key=len, reverse=True)))) if names else None
    while i < len(s):
        m = (long.match(s, i) if long else None) or TOKEN.match(s, i)
        if not m:
            raise Bad(f"cannot read {s[i:]!r}")
        if not m.group().isspace():
            out.append(m.group())
        i = m.end()
    return out


class Reader:
    """atoms: list of (base, conjugate, derivatives, indices); tensors: list of (kind, indices); references"""

    def __init__(self, s, names=()):
        self.t = tokens(s.strip().strip("$"), names)
        self.i = 0
        self.fields, self.tensors, self.refs = [], [], []
        while self.i < len(self.t):
            self.item()

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def eat(self, x):
        if self.peek() != x:
            raise Bad(f"expected {x} before {' '.join(self.t[self.i:])!r}")
        self.i += 1

    def group(self):
        """indices: either one token or a braced list; \\dot{\\alpha} is one index"""
        if self.peek() != "{":
            return [self.next()]
        self.eat("{")
        out = []
        while self.peek() != "}":
            x = self.next()
            if x == "\\dot":
                self.eat("{")
                x += "{" + self.next() + "}"
                self.eat("}")
            if x is None:
                raise Bad("unbalanced")
            out.append(x)
        self.eat("}")
        return out

    def item(self):
        p = self.peek()
        if p == "\\cdot":
            self.next()
        elif p in ("\\epsilon", "\\delta"):
            # a Greek name with a subscript is an invariant tensor
            self.next()
            self.eat("_")
            self.tensors.append((p[1:], self.group()))
        elif p == "\\mathcal":
            self.next()
            self.eat("{"); self.eat("O"); self.eat("}"); self.eat("_")
            self.refs.append("".join(self.group()))
        else:
            base, conj, der = self.atom()
            idx = []
            while self.peek() == "^":
                self.next()
                g = self.group()
                if g == ["\\dagger"]:
                    conj = not conj
                else:
                    idx += g
            self.fields.append((base, conj, der, tuple(idx)))

    def atom(self):
        p = self.next()
        if p == "{":
            base, conj, der = self.atom()
            while self.peek() == "^":
                self.next()
                g = self.group()
                if g != ["\\dagger"]:
                    raise Bad(f"superscript {g} inside braces")
                conj = not conj
            self.eat("}")
            return base, conj, der
        if p == "(":
            der = 0
            while self.peek() == "D":
                self.next()
                n = 1
                if self.peek() == "^":
                    self.next()
                    n = int("".join(self.group()))
                der += n
            base, conj, inner = self.atom()
            while self.peek() == "^":
                self.next()
                g = self.group()
                if g != ["\\dagger"]:
                    raise Bad(f"superscript {g} inside a derivative")
                conj = not conj
            self.eat(")")
            if not der:
                raise Bad("parentheses without derivative")
            return base, conj, der + inner
        if p == "\\tilde":
            self.eat("{")
            base, conj, der = self.atom()
            self.eat("}")
            return base, not conj, der
        if p == "\\bar":
            self.eat("{")
            x = self.next()
            self.eat("}")
            return "\\bar{" + x + "}", False, 0
        if re.match(r"[A-Za-z]+[0-9]*$|\\[a-zA-Z]+$", p):
            return p, False, 0
        raise Bad(f"unexpected {p!r}")

