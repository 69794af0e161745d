"""C34: the engine's events reach the program with everything the engine reports."""
from spec.common import *
from pulumi.automation import events as ev

E = "pulumi.automation.events."
ASSUMPTIONS = ["the engine reports events as sdk/go/common/apitype/events.go says"]
GHOST = {}

# What the engine reports (JSON name, whether it may be absent, the attribute's name, kind).
STDOUT = [("message", False, "message", "str"), ("color", False, "color", "str")]
DIAGNOSTIC = [("urn", True, "urn", "str"), ("prefix", True, "prefix", "str"), ("message", False, "message", "str"), ("color", False, "color", "str"),
              ("severity", False, "severity", "str"), ("streamID", True, "stream_id", "int"), ("ephemeral", True, "ephemeral", "bool")]
POLICY = [("resourceUrn", True, "resource_urn", "str"), ("message", False, "message", "str"), ("color", False, "color", "str"),
          ("policyName", False, "policy_name", "str"), ("policyPackName", False, "policy_pack_name", "str"),
          ("policyPackVersion", False, "policy_pack_version", "str"), ("policyPackVersionTag", False, "policy_pack_version_tag", "str"),
          ("enforcementLevel", False, "enforcement_level", "str")]
PRELUDE = [("config", False, "config", ("dict", "str", "str"))]
SUMMARY = [("maybeCorrupt", False, "maybe_corrupt", "bool"), ("durationSeconds", False, "duration_seconds", "int"),
           ("resourceChanges", False, "resource_changes", ("dict", "str", "int")), ("PolicyPacks", False, "policy_packs", ("dict", "str", "str"))]
DIFF = [("inputDiff", False, "input_diff", "bool")]
STATE = [("type", False, "type", "str"), ("urn", False, "urn", "str"), ("custom", True, "custom", "bool"), ("delete", True, "delete", "bool"),
         ("id", False, "id", "str"), ("parent", False, "parent", "str"), ("protect", True, "protect", "bool"),
         ("inputs", False, "inputs", ("dict", "str", "any")), ("outputs", False, "outputs", ("dict", "str", "any")),
         ("provider", False, "provider", "str"), ("initErrors", True, "init_errors", ("list", "str"))]
STEP = [("urn", False, "urn", "str"), ("type", False, "type", "str"), ("keys", True, "keys", ("list", "str")), ("diffs", True, "diffs", ("list", "str")),
        ("logical", True, "logical", "bool"), ("provider", False, "provider", "str")]
PLANNING = [("planning", True, "planning", "bool")]
FAILED = [("status", False, "status", "int"), ("steps", False, "steps", "int")]
OPS = ["same", "create", "update", "delete", "replace", "create-replacement", "delete-replaced", "read", "read-replacement", "refresh", "discard",
       "discard-replaced", "remove-pending-replace", "import", "import-replacement"]
KINDS = ["add", "add-replace", "delete", "delete-replace", "update", "update-replace"]
EVENTS = [("stdoutEvent", "stdout_event", "StdoutEngineEvent"), ("diagnosticEvent", "diagnostic_event", "DiagnosticEvent"),
          ("preludeEvent", "prelude_event", "PreludeEvent"), ("summaryEvent", "summary_event", "SummaryEvent"),
          ("resourcePreEvent", "resource_pre_event", "ResourcePreEvent"), ("resOutputsEvent", "res_outputs_event", "ResOutputsEvent"),
          ("resOpFailedEvent", "res_op_failed_event", "ResOpFailedEvent"), ("policyEvent", "policy_event", "PolicyEvent")]


def reported(fields):
    """What the engine reports of these fields; those that may be absent are, at will."""
    data = {}
    for json_name, optional, attribute, kind in fields:
        if not optional or choose(json_name + " reported", [True, False]):
            data[json_name] = sym(json_name, kind)
    return data


def check_fields(event, data, fields):
    for json_name, optional, attribute, kind in fields:
        if json_name in data:
            ensure_same(getattr(event, attribute), data[json_name], "a field of an event is what the engine reports")
        else:
            ensure(getattr(event, attribute) is None, "a field the engine does not report is absent")


async def check_message_events():
    """Messages, diagnostics, policy violations, the prelude and the summary have every field the engine reports."""
    cls, fields = choose("event", [(ev.StdoutEngineEvent, STDOUT), (ev.DiagnosticEvent, DIAGNOSTIC), (ev.PolicyEvent, POLICY),
                                   (ev.PreludeEvent, PRELUDE), (ev.SummaryEvent, SUMMARY), (ev.StepEventStateMetadata, STATE)])
    data = reported(fields)
    event = root(cls.from_json, data)
    ensure(isinstance(event, cls), "the event")
    check_fields(event, data, fields)


async def check_diff():
    """A property's difference has its kind and whether it is one of inputs."""
    data = reported(DIFF)
    kind = choose("kind", KINDS)
    data["diffKind"] = kind
    d = root(ev.PropertyDiff.from_json, data)
    ensure(d.diff_kind == kind and isinstance(d.diff_kind, ev.DiffKind), "the kind of the difference")
    check_fields(d, data, DIFF)


def spec_state(cls, data):
    return ("state", data)


def spec_diff(cls, data):
    return ("difference", data)


async def check_step():
    """A step has every field the engine reports, its states and its detailed differences, path by path."""
    if not SYMBOLIC:
        return
    use(E + "StepEventStateMetadata.from_json", spec_state)
    use(E + "PropertyDiff.from_json", spec_diff)
    data = reported(STEP)
    op = choose("op", OPS) if len(data) == len(STEP) else "update"
    data["op"] = op
    data["old"] = choose("old", [None, {"type": "the old one"}])
    data["new"] = choose("new", [None, {"type": "the new one"}])
    detailed = choose("detailed", [True, False])
    if detailed:
        data["detailedDiff"] = sym("diffs by path", ("dict", "str", "any"))
        assume(len(data["detailedDiff"]) > 0)
    step = root(ev.StepEventMetadata.from_json, data)
    ensure(step.op == op and isinstance(step.op, ev.OpType), "the operation")
    check_fields(step, data, STEP)
    ensure_same(step.old, ("state", data["old"]) if data["old"] is not None else None, "the state before")
    ensure_same(step.new, ("state", data["new"]) if data["new"] is not None else None, "the state after")
    if detailed:
        p = sym("path", "str")
        ensure(iff(p in step.detailed_diff, p in data["detailedDiff"]), "every path with a difference, and no other")
        if p in data["detailedDiff"]:
            ensure_same(step.detailed_diff[p], ("difference", data["detailedDiff"][p]), "the difference at the path")
    else:
        ensure(step.detailed_diff is None, "no differences reported")


def spec_step(cls, data):
    return ("step", data)


async def check_resource_events():
    """A resource's events have their step, and every other field the engine reports."""
    if not SYMBOLIC:
        return
    use(E + "StepEventMetadata.from_json", spec_step)
    cls, fields = choose("event", [(ev.ResourcePreEvent, PLANNING), (ev.ResOutputsEvent, PLANNING), (ev.ResOpFailedEvent, FAILED)])
    data = reported(fields)
    data["metadata"] = {"op": "same"}
    event = root(cls.from_json, data)
    ensure(isinstance(event, cls), "the event")
    check_fields(event, data, fields)
    ensure_same(event.metadata, ("step", data["metadata"]), "its step")


def recorder(name):
    def from_json(cls, data):
        return (name, data)

    return from_json


async def check_event():
    """An event has its number, its time, and exactly what happened."""
    if not SYMBOLIC:
        return
    for json_name, attribute, cls in EVENTS:
        use(E + cls + ".from_json", recorder(cls))
    data = {"sequence": sym("sequence", "int"), "timestamp": sym("timestamp", "int")}
    what = choose("what", ["cancelEvent"] + [json_name for json_name, attribute, cls in EVENTS])
    data[what] = {} if what == "cancelEvent" else {"anything": "at all"}
    e = root(ev.EngineEvent.from_json, data)
    ensure_same(e.sequence, data["sequence"], "the event's number")
    ensure_same(e.timestamp, data["timestamp"], "the event's time")
    ensure((e.cancel_event is not None) == (what == "cancelEvent"), "the last event is told apart")
    for json_name, attribute, cls in EVENTS:
        ensure_same(getattr(e, attribute), (cls, data[what]) if json_name == what else None, "what happened, and nothing else")


def any_value(r, kind):
    if kind == "str":
        return r.choice(["", "x", "urn:pulumi:s::p::t::n", "é"])
    if kind == "int":
        return r.choice([0, 1, 17])
    if kind == "bool":
        return r.random() < 0.5
    if kind[0] == "list":
        return [any_value(r, kind[1]) for _ in range(r.randrange(3))]
    if kind[0] == "dict":
        return {r.choice(["a", "b", "c.d[0]"]): any_value(r, kind[2]) for _ in range(r.randrange(3))}
    return r.choice([None, 1, "x", ["y"], {"z": True}])


def any_fields(r, fields):
    return {j: any_value(r, kind) for j, optional, a, kind in fields if not optional or r.random() < 0.5}


def any_step(r):
    data = any_fields(r, STEP)
    data["op"] = r.choice(OPS)
    data["old"] = any_fields(r, STATE) if r.random() < 0.5 else None
    data["new"] = any_fields(r, STATE) if r.random() < 0.5 else None
    if r.random() < 0.5:
        data["detailedDiff"] = {p: {"diffKind": r.choice(KINDS), "inputDiff": r.random() < 0.5} for p in r.sample(["a", "b[0]", "c.d"], r.randrange(1, 4))}
    return data


def check_any_fields(event, data, fields, what):
    for j, optional, a, kind in fields:
        got = getattr(event, a)
        ensure(got == data.get(j) and type(got) is type(data.get(j)), f"{what}.{a} is {got!r}, reported as {data.get(j)!r}")


def check_any_step(step, data):
    check_any_fields(step, data, STEP, "step")
    ensure(step.op == data["op"] and isinstance(step.op, ev.OpType), f"the operation {step.op}")
    for side in ["old", "new"]:
        got = getattr(step, side)
        ensure((got is None) == (data[side] is None), f"the {side} state")
        if got is not None:
            check_any_fields(got, data[side], STATE, side)
    diffs = data.get("detailedDiff")
    ensure((step.detailed_diff is None) == (diffs is None), f"the differences {step.detailed_diff}")
    if diffs is not None:
        ensure(set(step.detailed_diff) == set(diffs), f"the differences {step.detailed_diff}")
        for p, d in step.detailed_diff.items():
            ensure(isinstance(d, ev.PropertyDiff) and d.diff_kind == diffs[p]["diffKind"] and d.input_diff == diffs[p]["inputDiff"], f"the difference at {p}")


async def check_event_native():
    """Any event, in full."""
    r = rand()
    what, attribute, cls = r.choice(EVENTS + [("cancelEvent", "cancel_event", "CancelEvent")])
    fields = {"stdoutEvent": STDOUT, "diagnosticEvent": DIAGNOSTIC, "preludeEvent": PRELUDE, "summaryEvent": SUMMARY, "resourcePreEvent": PLANNING,
              "resOutputsEvent": PLANNING, "resOpFailedEvent": FAILED, "policyEvent": POLICY, "cancelEvent": []}[what]
    data = any_fields(r, fields)
    step = what in ("resourcePreEvent", "resOutputsEvent", "resOpFailedEvent")
    if step:
        data["metadata"] = any_step(r)
    whole = {"sequence": r.randrange(100), "timestamp": r.randrange(100), what: data}
    note("event", whole)
    e = ev.EngineEvent.from_json(whole)
    ensure(e.sequence == whole["sequence"] and e.timestamp == whole["timestamp"], "the event's number and time")
    for j, a, c in EVENTS + [("cancelEvent", "cancel_event", "CancelEvent")]:
        ensure((getattr(e, a) is not None) == (j == what), f"{a} is {getattr(e, a)}")
    event = getattr(e, attribute)
    ensure(type(event).__name__ == cls, "the event")
    check_any_fields(event, data, fields, what)
    if step:
        check_any_step(event.metadata, data["metadata"])


HARNESSES = [check_message_events, check_diff, check_step, check_resource_events, check_event]
NATIVE = [check_event_native]
BOUNDS = {"check_event_native": "up to 2 properties, 3 differences"}
