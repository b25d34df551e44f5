"C10: the property name of a member."

import keyword

from .c16 import *  # noqa: F403

from strong_typing.auxiliary import Alias  # noqa: E402


def spec_property_name(name, aliases):
    for a in aliases:
        if isinstance(a, Alias):
            return a.name
    for k in keyword.kwlist:
        if name == k + "_":
            return k
    return name


@obligation("C10", "a member name is mapped to its alias, or else loses a trailing underscore exactly if a keyword remains", ["mapping.python_field_to_json_property", "inspection.get_annotation"])
def _() -> None:
    name = SStr([z3.Const("name", STR)])
    form = branch(("no type", "plain", "annotated"))
    if form == "no type":
        args, aliases = [name], ()
    elif form == "plain":
        args, aliases = [name, any_class()], ()
    else:
        m = metadata()
        args, aliases = [name, TyAnn(any_class(), m)], m
    same_value(call(M.python_field_to_json_property, args, {}), call(spec_property_name, [name, aliases], {}), "property name")


@obligation("C10", "distinct members without alias have distinct property names", "mapping.python_field_to_json_property")
def _() -> None:
    a, b = SStr([z3.Const("a", STR)]), SStr([z3.Const("b", STR)])
    pa, pb = call(M.python_field_to_json_property, [a], {}), call(M.python_field_to_json_property, [b], {})
    # a member cannot be named by a keyword
    for k in keyword.kwlist:
        require(a.t != z3.StringVal(k))
        require(b.t != z3.StringVal(k))
    require(a.t != b.t)
    goal(interp.str_term(pa) != interp.str_term(pb), "distinct property names")
