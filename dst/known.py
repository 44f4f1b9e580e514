"""known-findings.txt: genuine defects that are recorded rather than repaired."""
import os
import shlex

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known-findings.txt")


class Known:
    def __init__(self, fields, text):
        self.property = fields["property"]
        self.op, self.field, self.contains = fields["op"], fields["field"], fields.get("contains", "")
        self.text = text

    def matches(self, prop, m):
        return prop == self.property and m.op == self.op and m.field == self.field and self.contains in m.detail


def load(prop=None):
    """lines:  known: property=C19 op=.. field=.. contains=".." :: what fails"""
    out = []
    with open(PATH) as f:
        for line in f:
            if line.startswith("known:"):
                head, text = line[6:].split("::", 1)
                fields = dict(p.split("=", 1) for p in shlex.split(head))
                if prop is None or fields["property"] == prop:
                    out.append(Known(fields, text.strip()))
    return out
