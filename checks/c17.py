"""C17: specification editing, sequences of operations against a model editor."""
import copy

from vlib import editor
from vlib import gen
from vlib import lk
from vlib.core import Prop
from vlib.core import call
from vlib.core import call_warn
from vlib.core import check
from vlib.core import info

RULE = (
    "A random specification and a sequence of 1-6 edits with arguments resolved against "
    "the current specification (names as string, list or tuple, sometimes unknown "
    "names). After each step the result must equal, up to spelled-out defaults, that of "
    "a reference editor written from the documentation; the input must be untouched and "
    "share no mutable part with the result that is changed later; the result must be "
    "processable and have a parameter template. Removing a normalized measurement warns. "
    "Non-trivial: at least one step that changes the specification."
)
ASSUMPTIONS = [
    "removing measurements keeps the number of periods",
    "sequences stop where no measurement would be left",
]


def run(case):
    from skillmodels.process_model import process_model

    model = gen.build_model(case["model"])
    original = copy.deepcopy(model)
    first = model
    changed = 0
    labels = []
    for op in case["ops"]:
        res = editor.resolve(model, op)
        if res is None:
            continue
        name, arg = res
        before = copy.deepcopy(model)
        got, warns = call_warn(name, editor.call_edit, name, arg, model)
        check(model == before, f"{name} modified the specification", arg=arg)
        want = editor.edit(model, name, arg)
        a, b = editor.canonical(got), editor.canonical(want)
        for key in b:
            check(a[key] == b[key], f"{name}({arg!r}): wrong {key}", got=a[key],
                  want=b[key])
        if name == "remove_measurements":
            normal = editor.removes_normalized(model, arg)
            hits = [w for w in warns if "normalized" in w]
            check(bool(hits) == normal, "warning about removed normalizations",
                  got=warns, expected=normal)
        call(f"process_model after {name}", process_model, got)
        if a != editor.canonical(before):
            changed += 1
            labels.append(name)
        # a result that is changed by its owner must not affect its input
        keep = copy.deepcopy(got)
        wreck(got)
        check(model == before, f"result of {name} shares mutable parts with its input")
        model = keep
    check(first == original, "a later step modified the original specification")
    return info(changed > 0, labels + lk.features(case["model"]))


def wreck(obj):
    if isinstance(obj, dict):
        for v in obj.values():
            wreck(v)
        obj["__wrecked__"] = 1
    elif isinstance(obj, list):
        for v in obj:
            wreck(v)
        obj.append("__wrecked__")


PROPS = [Prop("sequences", editor.spec_cases, run, quick=3200, thorough=60000)]
