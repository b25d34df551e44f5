"""
C19: documentation strings.

A documentation string has arbitrarily many parameters, exceptions and references with arbitrary names and texts.
"""

import copy
import enum
import inspect
import re
import sys

from pyvc import text  # noqa: E402

from .classes import *  # noqa: F403
import strong_typing.docstring as DS  # noqa: E402


# texts: names of parameters are words, descriptions are normalised lines (which may be empty, and contain colons)
NAME = text.Trait(text.WHITESPACE + ":", trimmed=True, nonempty=True)
SHORT = text.Trait(text.WHITESPACE.replace(" ", ""), trimmed=True, nonempty=True, squeezed=True, plain_lines=True)
LONG = text.Trait("\t", trimmed=True, nonempty=True, plain_lines=True)
text.TRAITS.update(
    c19_short=SHORT, c19_long=LONG, c19_returns=text.LINE,
    c19_param_name=NAME, c19_param_text=text.LINE, c19_raises_name=NAME, c19_raises_text=text.LINE, c19_see_text=text.LINE,
    c19_word=NAME, c19_name=NAME, c19_rest=text.Trait(),
)


def text_of(t: Any) -> Any:
    tr = text.trait(t)
    if tr is not None and tr.nonempty:
        ctx().axiom(("nonempty", t), lambda: z3.Length(t) > 0)
    return SStr([t])


def text_fn(name: str) -> Callable:
    g = z3.Function(f"c19_{name}", INT, STR)
    return lambda j: text_of(g(as_int(j)))


def count_of(kind: str) -> Any:
    n = z3.Const(f"c19_{kind}_n", INT)
    ctx().add_fact(n >= 0)
    return n


def entries(kind: str, cls: Any) -> tuple:
    "A dictionary of arbitrarily many parameters or exceptions, by name."
    n, name, desc = count_of(kind), text_fn(f"{kind}_name"), text_fn(f"{kind}_text")
    q = FnSeq(n, lambda j: (name(j), call(cls, [name(j), desc(j)], {})))
    q.distinct = True
    return PDict([("seq", q)]), n, z3.Function(f"c19_{kind}_name", INT, STR)


class Parameters(Sym):
    "The parameters of a function."

    def __init__(self) -> None:
        self.has = z3.Function("is_parameter", STR, BOOL)

    def vc_contains(self, key: Any) -> Any:
        return self.has(interp.str_term(key))

    def vc_getitem(self, key: Any) -> Any:
        if not fork(self.has(interp.str_term(key))):
            interp.raise_py(KeyError)
        return Parameter(interp.str_term(key))

    def names(self) -> FnSeq:
        "The names of the parameters, in order."
        n = z3.Const("parameters", INT)
        ctx().add_fact(n >= 0)
        name = z3.Function("parameter_name", INT, STR)

        def at(j: Any) -> Any:
            t = name(as_int(j))
            ctx().axiom(("is parameter", t), lambda: self.has(t))
            return SStr([t])

        q = FnSeq(n, at)
        q.distinct = True
        return q

    def vc_seq(self) -> Any:
        return self.names()

    def vc_getattr(self, nm: str) -> Any:
        q = self.names()
        of = lambda j: Parameter(interp.str_term(q.at(j)))  # noqa: E731
        if nm == "keys":
            return Model(lambda: STuple(q), "keys")
        if nm == "values":
            return Model(lambda: STuple(FnSeq(q.n, of)), "values")
        if nm == "items":
            return Model(lambda: STuple(FnSeq(q.n, lambda j: (q.at(j), of(j)))), "items")
        if nm == "get":
            return Model(lambda key, default=None: Parameter(interp.str_term(key)) if fork(self.has(interp.str_term(key))) else default, "get")
        return NotImplemented


class Kind(Sym):
    "The kind of a parameter: any of the five."

    def __init__(self, name: Any):
        self.t = z3.Function("kind_of", STR, INT)(name)

    def vc_is(self, other: Any) -> Any:
        return self.t == int(other) if isinstance(other, enum.Enum) else False

    vc_eq = vc_is

    def vc_subst(self, go: Any, pairs: list) -> Any:
        k = Kind.__new__(Kind)
        k.t = core.substitute(self.t, *pairs)
        return k


class Parameter(Sym):
    def __init__(self, name: Any):
        self.name = name

    def vc_getattr(self, nm: str) -> Any:
        if nm == "name":
            return SStr([self.name])
        if nm == "kind":
            return Kind(self.name)
        if nm == "annotation":
            return TyOpaque(z3.Function("annotation_of", STR, core.Ty)(self.name))
        return NotImplemented

    def vc_subst(self, go: Any, pairs: list) -> Any:
        return Parameter(core.substitute(self.name, *pairs))


class Signature(Sym):
    def __init__(self) -> None:
        self.parameters = Parameters()
        self.result = branch((inspect.Signature.empty, any_type("Result")))
        if self.result is not inspect.Signature.empty:
            ctx().add_fact(self.result.t != type_term(inspect.Signature.empty))

    def vc_getattr(self, nm: str) -> Any:
        if nm == "parameters":
            return self.parameters
        if nm == "return_annotation":
            return self.result
        return NotImplemented


class Function(Sym):
    "A function of which nothing else is known."

    def vc_getattr(self, nm: str) -> Any:
        if nm in ("__qualname__", "__name__"):
            return SStr([z3.Const("function_name", STR)])
        return NotImplemented


def documentation() -> Any:
    params, n, f = entries("param", DS.DocstringParam)
    returns = call(DS.DocstringReturns, [SStr([z3.Const("c19_returns", STR)])], {}) if branch((False, True)) else None
    d = call(DS.Docstring, [], {"params": params, "returns": returns})
    return d, n, f


@obligation("C19", "documentation of a parameter that a function does not have is refused", "docstring.check_function_docstring")
def _() -> None:
    fn, sig = Function(), Signature()
    CONTRACTS[DS.get_signature] = lambda x: sig if x is fn else NotImplemented
    d, n, f = documentation()
    o = outcome(lambda: call(DS.check_function_docstring, [fn, d], {}))
    i = z3.Const("i", INT)
    extra = z3.And(i >= 0, i < n, z3.Not(sig.parameters.has(f(i))))
    if o.exc is None:
        ctx().add_index(i)
        goal(z3.Not(extra), "each documented parameter is one of the function")
        if d.attrs["returns"] is not None and sig.result is inspect.Signature.empty:
            refuted("description of the result of a function that has none is accepted")
        return
    if o.exc.cls is not TypeError:
        refuted(f"ends in {o.exc.cls}")
    if d.attrs["returns"] is None or sig.result is not inspect.Signature.empty:
        j = seqs.find_first(n, lambda j: fork(z3.Not(sig.parameters.has(f(as_int(j))))))
        if j is None:
            refuted("documentation is refused without reason")
    goal(z3.BoolVal(True), "refused for a reason")


class_of = z3.Function("base_class", INT, core.Ty)
members_n = z3.Function("members_n", core.Ty, INT)
member_name = z3.Function("member_name", core.Ty, INT, STR)
member_type = z3.Function("member_type", core.Ty, STR, core.Ty)
is_member = z3.Function("is_member", core.Ty, STR, BOOL)
position = z3.Function("position", core.Ty, STR, INT)
inherited = z3.Function("is_inherited", STR, BOOL)  # a member of a base class


def has_member(t: Any, x: Any) -> Any:
    "Asks for a member by name."
    p = position(t, x)
    ctx().axiom(("is member", t, x), lambda: z3.Implies(is_member(t, x), z3.And(p >= 0, p < members_n(t), member_name(t, p) == x)))
    ctx().add_index(p)
    return is_member(t, x)


class Members(FnSeq):
    "Names and types of the members of a class."

    def __init__(self, t: Any):
        ctx().axiom(("members", t), lambda: members_n(t) >= 0)
        self.t = t

        def item(j: Any) -> Any:
            x = member_name(t, as_int(j))
            ctx().axiom(("member", t, x), lambda: z3.And(is_member(t, x), position(t, x) == as_int(j)))
            return (SStr([x]), TyOpaque(member_type(t, x)))

        super().__init__(members_n(t), item)
        self.distinct = True


class Inherited(Sym):
    "The set of the names of members of base classes, as the loop over the base classes collects them."

    def __init__(self) -> None:
        self.full = False

    def vc_getattr(self, nm: str) -> Any:
        if nm == "add":
            return Model(self.add, "add")
        if nm == "update":
            return Model(lambda xs: interp.iterate(xs, self.add), "update")
        return NotImplemented

    def add(self, x: Any) -> None:
        if not interp.effect(self, "add", x):
            raise Unsupported("a set that another loop adds to")

    def vc_loop(self, count: Any, i0: Any, paths: list) -> None:
        for p, effects in paths:
            if len(effects) != 1:
                raise Unsupported("a loop over a class that does not collect all members")
            op, (x,) = effects[0]
            t = interp.str_term(x) if op == "add" else x
            if op == "add":
                if not (z3.is_app(t) and t.decl().eq(member_name) and t.arg(1).eq(i0)):
                    raise Unsupported("a set of other names")
                own = t.arg(0)
                if not as_int(count).eq(members_n(own)):
                    raise Unsupported("a loop over a class that does not collect all members")
            elif not (t.decl().eq(class_of) and t.arg(0).eq(i0) and as_int(count).eq(z3.Const("bases", INT))):
                raise Unsupported("a loop that does not visit all base classes")
        if op == "add":
            if not interp.effect(self, "class", own):
                raise Unsupported("members of a single class")
        else:
            self.full = True

    def vc_contains(self, x: Any) -> Any:
        return inherited(interp.str_term(x)) if self.full else False


class Bases(Sym):
    "The class itself, and its base classes in the order of resolution."

    def __init__(self, cls: Any):
        self.cls = cls
        self.n = z3.Const("bases", INT)
        ctx().add_fact(self.n >= 0)

    def at(self, j: Any) -> Any:
        b = class_of(as_int(j))
        ctx().axiom(("base", b), lambda: b != self.cls.t)
        return TyOpaque(b)

    def vc_seq(self) -> Any:
        q = FnSeq(self.n + 1, lambda j: self.cls if not fork(as_int(j) > 0) else self.at(as_int(j) - 1))

        def loop(cb: Callable) -> bool:
            cb(self.cls)
            interp.iterate_seq(FnSeq(self.n, self.at), cb)
            return True

        q.loop = loop
        return q

    def vc_getitem(self, key: Any) -> Any:
        if isinstance(key, slice) and (key.start, key.stop, key.step) == (1, None, None):
            return PList([("seq", FnSeq(self.n, self.at))])
        return NotImplemented


@obligation("C19", "documentation of a member that a data class does not have is refused", "docstring.check_dataclass_docstring")
def _() -> None:
    class_contracts()
    cls = any_class_type("dataclass")
    d, n, f = documentation()
    CONTRACTS[inspect.getmro] = Bases
    CONTRACTS[DS.get_class_properties] = lambda c: PList([("seq", Members(c.t))])
    interp.NEW_SET = Inherited
    i = z3.Const("i", INT)
    o = outcome(lambda: call(DS.check_dataclass_docstring, [cls, d], {}))
    if o.exc is not None:
        if o.exc.cls is not TypeError:
            refuted(f"ends in {o.exc.cls}")
        # it is refused for a member that the class does not declare itself
        j = seqs.find_first(n, lambda j: fork(z3.Or(z3.Not(has_member(cls.t, f(as_int(j)))), inherited(f(as_int(j))))))
        if j is None:
            refuted("documentation is refused without reason")
        goal(z3.BoolVal(True), "refused for a reason")
        return
    require(z3.And(i >= 0, i < n))
    ctx().add_index(i)
    goal(is_member(cls.t, f(i)), "each documented parameter is a member of the class")


# ---------------------------------------------------------------- printing and parsing


class Writer(Sym):
    "Contract of StringIO: what is written, in order."

    def __init__(self) -> None:
        self.written = PList()

    def vc_getattr(self, nm: str) -> Any:
        if nm == "write":
            return Model(lambda s: models.list_append(self.written, s), "write")
        if nm == "getvalue":
            return Model(lambda: Document(parts_of(self.written)), "getvalue")
        if nm == "close":
            return Model(lambda: None, "close")
        return NotImplemented


def flat(x: PList) -> list:
    out: list = []
    for s in x.segs:
        if s[0] != "item":
            raise Unsupported("loop within an entry")
        out += text.pieces_of(s[1])
    return out


def parts_of(written: PList) -> list:
    "What is written once, and what is written for each of many."
    parts: list = []
    for seg in written.segs:
        if seg[0] == "item":
            if not parts or parts[-1][0] != "one":
                parts.append(("one", []))
            parts[-1][1].extend(text.pieces_of(seg[1]))
        elif isinstance(seg[1], seqs.FlatSeq):
            parts.append(("each", seg[1].parts.n, lambda j, q=seg[1].parts: flat(q.at(j))))
        else:
            parts.append(("each", seg[1].n, lambda j, q=seg[1]: text.pieces_of(q.at(j))))
    return [("one", joined(p[1])) if p[0] == "one" else p for p in parts]


def joined(pieces: list) -> list:
    return SStr(pieces).pieces


START = re.compile(r"(\n+):")


def starts(pieces: list, begin: bool) -> list:
    "Splits what is written at the beginnings of the directives: [(newlines before, pieces)]."
    out: list = [["", []]]
    for k, p in enumerate(joined(pieces)):
        if isinstance(p, str):
            if begin and not k and p.startswith(":"):
                out.append(["", []])
            at = 0
            for m in START.finditer(p):
                out[-1][1].append(p[at : m.start()])
                out.append([m.group(1), []])
                at = m.end() - 1
            out[-1][1].append(p[at:])
        else:
            t = text.trait(p)
            if t is None or not (t.plain_lines or "\n" in t.without and not (begin and not k) and not str(joined(pieces)[k - 1]).endswith("\n")):
                raise Unsupported("a text that may contain directives")
            out[-1][1].append(p)
    return [(lead, joined(ps)) for lead, ps in out]


class Match(Sym):
    def __init__(self, pieces: list):
        self.pieces = pieces

    def vc_getattr(self, nm: str) -> Any:
        if nm == "group":
            return Model(lambda k=0: text.text(self.pieces) if k in (0, 1) else interp.raise_py(IndexError), "group")
        return NotImplemented

    def vc_subst(self, go: Any, pairs: list) -> Any:
        return Match([core.substitute(p, *pairs) if z3.is_expr(p) else p for p in self.pieces])


class Matches(Sym):
    "The directives, one kind after the other."

    def __init__(self, segs: list):
        self.segs = segs

    def vc_seq(self) -> Any:
        q = PList(list(self.segs)).to_seq()

        def loop(cb: Callable) -> bool:
            for s in self.segs:
                interp.iterate_seq(verify.seg_seq(s), cb)
            return True

        if len(self.segs) > 1:
            q.loop = loop
        return q


class Begin(Sym):
    "The match of the beginning of the first directive."

    def __init__(self, doc: Any):
        self.doc = doc

    def vc_getattr(self, nm: str) -> Any:
        if nm == "start":
            return Model(lambda k=0: Position(self.doc), "start")
        return NotImplemented

    def vc_truth(self) -> bool:
        return True


class Position(Sym):
    def __init__(self, doc: Any):
        self.doc = doc


class Document(Sym):
    "A text: a description, and directives of which there may be arbitrarily many."

    def __init__(self, parts: Any, clean: bool = False):
        self.parts, self.clean = parts, clean
        self.head: Any = None
        self.chunks: list = []

    def vc_truth(self) -> bool:
        if any(p[0] == "one" and any(isinstance(x, str) or not z3.is_expr(x) or text.trait(x).nonempty for x in p[1]) for p in self.parts):
            return True
        return any(fork(as_int(p[1]) > 0) for p in self.parts if p[0] == "each")

    def scan(self) -> None:
        if self.head is not None:
            return
        head: list = []
        chunks: list = []  # ("one", lead, pieces), ("each", n, at, lead)
        for p in self.parts:
            here = head if not chunks else None
            if p[0] == "one":
                begin = not chunks and not head
                first, *more = starts(p[1], begin)
                if first[1]:
                    if here is not None:
                        here += first[1]
                    elif chunks[-1][0] == "one":
                        chunks[-1][2].extend(first[1])
                    else:
                        raise Unsupported("text after directives")
                chunks += [["one", lead, ps] for lead, ps in more]
            else:
                if not fork(as_int(p[1]) > 0):
                    continue

                def item(j: Any, at: Callable = p[2]) -> tuple:
                    s = starts(at(j), False)
                    if len(s) != 2 or s[0][1]:
                        raise Unsupported("form of an entry")
                    return s[1]

                chunks.append(["each", item(0)[0], p[1], item])
        self.head, self.chunks = head, chunks

    def description(self) -> Any:
        self.scan()
        head = self.head + ([self.chunks[0][1]] if self.chunks else [])
        if self.clean:
            s = text.strip_left(head, "\n", True)
            if s and (isinstance(s[0], str) or not all(isinstance(p, str) and not p.strip("\n") or z3.is_expr(p) and text.trait(p).trimmed and "\t" in text.trait(p).without for p in s)):
                raise Unsupported("inspect.cleandoc")
            head = s
        return text.text(head)

    def matches(self) -> Any:
        self.scan()
        out: list = []
        for k, c in enumerate(self.chunks):
            after = self.chunks[k + 1][1] if k + 1 < len(self.chunks) else ""
            if c[0] == "one":
                out.append(("item", Match(joined(c[2] + [after]))))
            else:

                def at(j: Any, c: list = c, after: str = after) -> Any:
                    last = not fork(as_int(j) + 1 < as_int(c[2]))
                    return Match(joined(c[3](j)[1] + [after if last else c[1]]))

                out.append(("seq", FnSeq(c[2], at)))
        return Matches(out)

    def vc_len(self) -> Any:
        return End()

    def vc_getitem(self, key: Any) -> Any:
        if isinstance(key, slice) and key.step is None:
            if isinstance(key.stop, End) and key.start is None or isinstance(key.start, End) and key.stop is None:
                self.scan()
                if self.chunks:
                    raise Unsupported("text up to its end")
                return self.description() if key.start is None else ""
            if key.start is None and isinstance(key.stop, Position):
                return self.description()
            if key.stop is None and isinstance(key.start, Position):
                return Directives(self)
        raise Unsupported("part of a text")

    def vc_getattr(self, nm: str) -> Any:
        self.scan()
        if self.chunks:
            raise Unsupported(f"{nm} of a text")
        return getattr_(self.description(), nm)


class End(Sym):
    "The length of a text, as a position in it."


class Directives(Sym):
    def __init__(self, doc: Document):
        self.doc = doc


def cleandoc(s: Any) -> Any:
    if isinstance(s, Document):
        d = copy.copy(s)
        d.clean = True
        return d
    return NotImplemented


def search(pattern: Any, s: Any, flags: Any = 0) -> Any:
    if isinstance(s, Document) and (pattern, flags) == ("^:", re.MULTILINE):
        s.scan()
        return Begin(s) if s.chunks else None
    raise Unsupported("re.search")


def finditer(pattern: Any, s: Any, flags: Any = 0) -> Any:
    if (pattern, flags) == (r"(^:.*?)(?=^:|\Z)", re.DOTALL | re.MULTILINE):
        if isinstance(s, Directives):
            return s.doc.matches()
        if isinstance(s, str) and not s:
            return PList()
    raise Unsupported("re.finditer")


def text_contracts() -> None:
    CONTRACTS[DS.StringIO] = Writer
    CONTRACTS[inspect.cleandoc] = cleandoc
    CONTRACTS[re.search] = search
    CONTRACTS[re.finditer] = finditer


def structured(kind: str) -> Any:
    "A documentation string: kind tells whether it has a short and a long description."
    short = text_of(z3.Const("c19_short", STR)) if kind != "none" else None
    long = text_of(z3.Const("c19_long", STR)) if kind == "both" else None
    params, _, _ = entries("param", DS.DocstringParam)
    raises, _, _ = entries("raises", DS.DocstringRaises)
    see = PList([("seq", (lambda n, f: FnSeq(n, lambda j: call(DS.DocstringSeeAlso, [f(j)], {})))(count_of("see"), text_fn("see_text")))])
    returns = call(DS.DocstringReturns, [text_of(z3.Const("c19_returns", STR))], {}) if branch((False, True)) else None
    return call(DS.Docstring, [], {"short_description": short, "long_description": long, "params": params, "returns": returns, "raises": raises, "see_also": see})


FIELDS = ("short_description", "long_description", "params", "returns", "raises", "see_also")

for _kind in ("none", "short", "both"):

    @obligation("C19", f"printing and parsing: {({'none': 'no description', 'short': 'a short description', 'both': 'a short and a long description'})[_kind]}", "docstring.Docstring.__str__ and parse_text", timeout=300)
    def _(kind: str = _kind) -> None:
        text_contracts()
        d = structured(kind)
        o = outcome(lambda: call(DS.parse_text, [call(str, [d], {})], {}))
        if o.exc is not None:
            refuted(f"ends in {o.exc.cls}")
        for f in FIELDS:
            same_value(o.value.attrs[f], d.attrs[f], f)


# ---------------------------------------------------------------- directives in any order

# (keyword, has a name, field of the result)
DIRECTIVES = [
    ("param", True, "params"), ("raise", True, "raises"), ("raises", True, "raises"), ("return", False, "returns"),
    ("returns", False, "returns"), ("see", False, "see_also"), ("seealso", False, "see_also"), (None, False, None), (None, True, None),
]
KEYWORDS = ("param", "raise", "raises", "return", "returns", "see", "seealso")
form = z3.Function("c19_form", INT, INT)
word, name_of, rest_of = (z3.Function(f"c19_{x}", INT, STR) for x in ("word", "name", "rest"))


class Given(Document):
    "A text of a description and of directives of any kind in any order, each followed by a text of any number of lines."

    def __init__(self) -> None:
        short, long = z3.Const("c19_short", STR), z3.Const("c19_long", STR)
        self.short, self.long = branch(((None, None), (short, None), (short, long)))
        head: list = []
        for t in (self.short, self.long):
            if t is not None:
                head += ["\n\n"] * bool(head) + text_of(t).pieces
        self.n = count_of("directives")
        self.only = z3.Const("c19_only", INT)
        super().__init__([("one", head), ("each", self.n, None)])
        self.head, self.chunks = head, []
        if fork(self.n > 0):
            self.chunks = [["each", "\n\n" if head else "", self.n, None]]

    def kind(self, j: Any) -> int:
        k = form(as_int(j))
        return ctx().decide([k == i for i in range(len(DIRECTIVES) - 1)] + [z3.Or(k < 0, k >= len(DIRECTIVES) - 1)])

    def matches(self) -> Any:
        return PList([("seq", FnSeq(self.n, self.match))])

    def match(self, j: Any) -> Any:
        i = as_int(j)
        kw, named, field = DIRECTIVES[self.kind(i)]
        if field == "returns":
            ctx().add_fact(i == self.only)  # there is one description of the result at most
        first: Any = kw
        if kw is None:
            first = word(i)
            text_of(first)
            ctx().add_fact(z3.And(*[first != z3.StringVal(k) for k in KEYWORDS]))
        pieces = [":", first]
        if named:
            pieces += [" ", *text_of(name_of(i)).pieces]
        return Match(joined(pieces + [":", rest_of(i)]))

    def expected(self, field: str) -> Any:
        def at(j: Any) -> Any:
            i = as_int(j)
            if DIRECTIVES[self.kind(i)][2] != field:
                return seqs.ABSENT
            desc = SStr([text.normal(rest_of(i))])
            if field == "see_also":
                return call(DS.DocstringSeeAlso, [desc], {})
            if field == "returns":
                return call(DS.DocstringReturns, [desc], {})
            name = SStr([name_of(i)])
            return (name, call({"params": DS.DocstringParam, "raises": DS.DocstringRaises}[field], [name, desc], {}))

        return FnSeq(self.n, at)


@obligation("C19", "directives in any order are attributed to the right kind and name, and none is lost", "docstring.parse_text", timeout=300)
def _() -> None:
    text_contracts()
    doc = Given()
    o = outcome(lambda: call(DS.parse_text, [doc], {}))
    if o.exc is not None:
        refuted(f"ends in {o.exc.cls}")
    got = o.value.attrs
    for f, t in (("short_description", doc.short), ("long_description", doc.long)):
        same_value(got[f], None if t is None else SStr([t]), f)
    if not doc.chunks:
        return
    same_value(got["params"], PDict([("seq", doc.expected("params"))]), "params")
    same_value(got["raises"], PDict([("seq", doc.expected("raises"))]), "raises")
    same_value(got["see_also"], PList([("filter", doc.expected("see_also"))]), "see_also")
    i = z3.Const("i", INT)

    def check() -> None:
        want = doc.expected("returns").at(i)
        if want is not seqs.ABSENT:
            ctx().add_fact(i == doc.only)
            same_value(got["returns"], want, "returns")
        goal(z3.BoolVal(True), "another directive")

    core.explore(check, index=i, bound=doc.n, keep=False)
    if got["returns"] is not None:
        j = seqs.find_first(doc.n, lambda j: doc.expected("returns").at(j) is not seqs.ABSENT)
        if j is None:
            refuted("a description of the result that is not there")


# ---------------------------------------------------------------- classes and functions with their documentation


class Entry(Sym):
    "A documented parameter or exception: what is assigned to it is recorded with its position."

    def __init__(self, owner: Any, j: Any):
        self.owner, self.j = owner, j

    def vc_setattr(self, nm: str, value: Any) -> None:
        self.owner.assign(nm, self.j, value)

    def vc_subst(self, go: Any, pairs: list) -> Any:
        return Entry(self.owner, core.substitute(self.j, *pairs))


class Entries(Sym):
    "A dictionary of arbitrarily many documented parameters or exceptions."

    def __init__(self, kind: str, attr: str, expected: Callable):
        self.n, self.name, self.attr, self.expected = count_of(kind), text_fn(f"{kind}_name"), attr, expected
        self.f = z3.Function(f"c19_{kind}_name", INT, STR)
        self.done = False

    def dict(self) -> PDict:
        q = FnSeq(self.n, lambda j: (self.name(j), Entry(self, as_int(j))))
        q.distinct = True
        return PDict([("seq", q)])

    def assign(self, nm: str, j: Any, value: Any) -> None:
        if nm != self.attr:
            refuted(f"{nm} is assigned", definite=False)
        same_value(value, self.expected(SStr([self.f(j)])), f"{nm} of an entry")
        if not interp.effect(self, "assign", j):
            raise Unsupported("assignment to a single entry")

    def vc_loop(self, count: Any, i0: Any, paths: list) -> None:
        if as_int(count).eq(self.n) and all(len(es) == 1 and es[0][1][0].eq(i0) for _, es in paths):
            self.done = True


class Exceptions(Sym):
    "Contract of get_exceptions: the exception classes of a module by name."

    def __init__(self, module: str):
        self.has = z3.Function(f"declares_{module}", STR, BOOL)
        self.cls = z3.Function(f"exception_{module}", STR, core.Ty)


class Context(Sym):
    "Exceptions by name: those of the modules, a later one takes precedence."

    def __init__(self) -> None:
        self.sources: list = []

    def vc_getattr(self, nm: str) -> Any:
        if nm == "update":
            return Model(self.sources.append, "update")
        if nm == "get":
            return Model(lambda k, default=None: self.find(k, default), "get")
        return NotImplemented

    def find(self, key: Any, default: Any) -> Any:
        t = interp.str_term(key)
        for s in reversed(self.sources):
            if fork(s.has(t)):
                return TyOpaque(s.cls(t))
        return default

    def vc_contains(self, key: Any) -> Any:
        return z3.Or(*[s.has(interp.str_term(key)) for s in self.sources])

    def vc_getitem(self, key: Any) -> Any:
        r = self.find(key, seqs.ABSENT)
        return interp.raise_py(KeyError) if r is seqs.ABSENT else r


for _kind in ("function", "data class", "another object"):

    @obligation("C19", f"types of documented parameters and exceptions: {_kind}", "docstring.parse_type")
    def _(kind: str = _kind) -> None:
        class_contracts()
        typ = any_class_type("dataclass") if kind == "data class" else Function()
        sig = Signature()
        CONTRACTS[DS.get_signature] = lambda x: sig if x is typ else NotImplemented
        CONTRACTS[DS.is_dataclass_type] = lambda x: kind == "data class" if x is typ else NotImplemented
        CONTRACTS[inspect.isfunction] = lambda x: kind == "function" if x is typ else NotImplemented
        CONTRACTS[inspect.getmodule] = lambda x: branch((MODULE, None)) if x is typ else NotImplemented
        CONTRACTS[DS.get_class_properties] = lambda c: PList([("seq", Members(c.t))])
        CONTRACTS[inspect.getmro] = Bases
        interp.NEW_SET = Inherited
        interp.NEW_DICT = Context
        sources = {id(DS.builtins): Exceptions("builtins"), id(MODULE): Exceptions("module")}
        CONTRACTS[DS.get_exceptions] = lambda m: sources[id(m)]

        def the_type(name: Any) -> Any:
            if kind == "data class":
                return TyOpaque(member_type(typ.t, name.t))
            if kind == "function":
                return TyOpaque(z3.Function("annotation_of", STR, core.Ty)(name.t))
            refuted("a type of a parameter")

        known_exceptions = Context()
        known_exceptions.sources = [sources[id(DS.builtins)], sources[id(MODULE)]]
        params = Entries("param", "param_type", the_type)
        raises = Entries("raises", "raise_type", lambda name: known_exceptions.find(name, None))
        returns = call(DS.DocstringReturns, [text_of(z3.Const("c19_returns", STR))], {}) if branch((False, True)) else None
        d = Obj(DS.Docstring)
        d.attrs.update(params=params.dict(), raises=raises.dict(), returns=returns)
        CONTRACTS[DS.get_docstring] = lambda t: SStr([z3.Const("c19_doc", STR)])
        CONTRACTS[DS.parse_text] = lambda s: d
        exists = {
            "function": lambda j: sig.parameters.has(params.f(as_int(j))),
            "data class": lambda j: z3.And(has_member(typ.t, params.f(as_int(j))), z3.Not(inherited(params.f(as_int(j))))),
            "another object": lambda j: z3.BoolVal(True),
        }[kind]
        o = outcome(lambda: call(DS.parse_type, [typ], {}))
        if o.exc is not None:
            if o.exc.cls is not TypeError:
                refuted(f"ends in {o.exc.cls}")
            if kind == "function" and returns is not None and sig.result is inspect.Signature.empty:
                pass
            elif seqs.find_first(params.n, lambda j: not fork(exists(j))) is None:
                if seqs.find_first(raises.n, lambda j: not fork(known_exceptions.vc_contains(raises.name(j)))) is None:
                    refuted("documentation is refused without reason")
            goal(z3.BoolVal(True), "refused for a reason")
            return
        i = z3.Const("i", INT)
        member = {"function": lambda: sig.parameters.has(params.f(i)), "data class": lambda: is_member(typ.t, params.f(i))}.get(kind)
        if member is not None:
            core.explore(lambda: goal(member(), "each documented parameter exists"), index=i, bound=params.n, keep=False)
        if o.value is not d:
            refuted("another documentation")
        if kind != "another object" and not params.done and not ctx().implied(params.n == 0):
            refuted("parameters are left without their types", definite=False)
        if kind == "function" and returns is not None:
            same_value(returns.attrs["return_type"], sig.result, "type of the result")
        goal(z3.BoolVal(True), "types are assigned")


MODULE = sys.modules[__name__]

