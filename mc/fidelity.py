"""Shared body of the fidelity checks: file in, reported values out, compare."""
from mc import core, text


def text_case(tally, key, label, factory, blob, expected, fields=None, name="f.dat", also_plain=True, seen=None):
    """Reads blob with a text-reporting reader; the picked pairs must equal expected."""
    if fields is None:
        fields = {d for d, _ in expected}
    path = core.put(core.scratch(), name, blob)
    case = {"label": label, "reader": key, "file": blob[:4000], "length": len(blob)}
    problem = None
    for debug in ((False, True) if also_plain else (True,)):
        writer = core.Writer()
        try:
            with core.time_limit(30):
                reader = factory(debug=debug, output_writer=writer)
                reader.Open(path)
                reader.Close()
        except core.Hang:
            problem = f"debug={debug}: did not terminate"
        except Exception as e:  # pylint: disable=broad-except
            problem = f"debug={debug}: {type(e).__name__}: {e}"
        if problem:
            break
        if debug:
            got = [p for p in text.pairs(writer.text) if p[0] in fields]
            problem = text.first_difference(got, expected)
        elif writer.text:
            problem = "writes output although debug is off"
    tally.add("executions", 2 if also_plain else 1)
    tally.add("transitions", len(expected))
    tally.add("evaluations", len(expected))
    tally.seen(seen if seen is not None else (key, blob[:2000], len(blob)))
    if problem:
        tally.violate(key, f"{label}: {problem}", case)
    return problem is None


def value_case(tally, key, label, run, expected, blob=b"", count=1, seen=None):
    """run() has to return expected."""
    problem = None
    try:
        with core.time_limit(30):
            got = run()
        if got != expected:
            if isinstance(got, list) and isinstance(expected, list):
                problem = text.first_difference(got, expected)
            else:
                problem = f"got {got!r:.400} expected {expected!r:.400}"
    except core.Hang:
        problem = "did not terminate"
    except Exception as e:  # pylint: disable=broad-except
        problem = f"{type(e).__name__}: {e}"
    tally.add("executions")
    tally.add("transitions", count)
    tally.add("evaluations", count)
    tally.seen(seen if seen is not None else (key, blob[:2000], len(blob), label if not blob else ""))
    if problem:
        tally.violate(key, f"{label}: {problem}", {"label": label, "reader": key, "file": bytes(blob[:4000])})
    return problem is None
