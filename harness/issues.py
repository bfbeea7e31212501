"""Parse what Sofa.verify reports into issues (see SofaVerify.tla)."""
import re

# (words of the heading, class of the issue)
HEADINGS = [
    ("missing mandatory", "missing"), ("added mandatory", "missing"),
    ("wrong type", "type"),
    ("attributes with missing variables", "variable"),
    ("too many or little underscores", "attribute"),
    ("too many underscores", "underscore"),
    ("reserved key words", "reserved"), ("reserved names", "custom"),
    ("wrong shape", "shape"), ("violations of the sofa convention", "rule"),
    ("deprecations", "deprecated"), ("preliminary convention", "preliminary")]
NUMBERS = {"preliminary": "GLOBAL_SOFAConventionsVersion"}


def _rule(line):
    if "must be given" in line:
        return "given"
    if line.startswith("Dimension "):
        return "dimension"
    if "lower case letters when writing" in line:
        return "lower"
    return "value"


def parse(text, severity=None):
    """Set of (severity, class, name) of a report."""
    return {i[:3] for i in lines(text, severity)}


def lines(text, severity=None):
    """Set of (severity, class, name, line) of a report."""
    out, section = set(), None
    for line in text.split("\n"):
        raw = line.strip()
        if raw in ("ERRORS", "WARNINGS"):
            severity, section = raw[0], None
            continue
        if not raw or set(raw) == {"-"}:
            continue
        item = re.match(r"^-\s+(.*)$", line)
        if not item:
            low = raw.lower()
            found = [c for h, c in HEADINGS if h in low]
            if found:
                section = found[0]
                if section in NUMBERS:
                    out.add((severity or "W", section, NUMBERS[section], raw))
            elif re.match(r"^detected|^added", low):
                section = "unknown"
            continue
        if section in NUMBERS or section is None:
            continue
        body = item.group(1)
        words = body.split(" ")
        cls, name = section, words[0].rstrip(":")
        if section == "rule":
            cls = _rule(body)
            if cls == "dimension":
                name = words[1]
        out.add((severity or "E", cls, name, body))
    return out


def as_json(issues):
    return [{"s": s, "c": c, "n": n} for s, c, n, *_ in sorted(issues)]
