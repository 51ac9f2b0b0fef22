"""An independent reader (LLVM assembly, typed or opaque pointers) and writer of QIR."""
import re
import struct
import subprocess


class QirError(Exception):
    pass


# gate -> name of its quantum function
QIS = {
    "X": "x", "Y": "y", "Z": "z", "Hadamard": "h", "S": "s", "T": "t", "RX": "rx", "RY": "ry", "RZ": "rz",
    "CX": "cnot", "CZ": "cz",
    "Rotation": "rot", "CY": "cy", "SWAP": "swap", "CHadamard": "ch", "CRX": "crx", "CRY": "cry", "CRZ": "crz",
    "CRotation": "crot", "CSWAP": "cswap", "CCX": "ccnot",
}
BASE = ("X", "Y", "Z", "Hadamard", "S", "T", "RX", "RY", "RZ", "CX", "CZ")

PROFILE = ("custom", (("dynamic_qubit_management", "i1 false"), ("dynamic_result_management", "i1 false"),
                      ("qir_major_version", "i32 1"), ("qir_minor_version", "i32 0")))
CALL = re.compile(r"^(?:tail )?call void @([A-Za-z0-9_.]+)\((.*)\)(?: #\d+)?$")


def split(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
            continue
        depth += ch in "([{"
        depth -= ch in ")]}"
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def double(s):
    if s.startswith("0x"):
        return struct.unpack(">d", bytes.fromhex(s[2:].zfill(16)))[0]
    return float(s)


def argument(s):
    """-> (kind, value); kinds: double, qubit, result, ptr (opaque pointers), null"""
    m = re.match(r"^double (\S+)$", s)
    if m:
        return ("double", double(m.group(1)))
    m = re.match(r"^(i1|i32|i64) (-?\d+|true|false)$", s)
    if m:
        return (m.group(1), {"true": 1, "false": 0}[m.group(2)] if m.group(2) in ("true", "false") else int(m.group(2)))
    m = re.match(r"^(%Qubit\*|%Result\*|ptr|i8\*)(?: writeonly)? (null|inttoptr \(i64 (\d+) to (%Qubit\*|%Result\*|ptr|i8\*)\))$", s)
    if not m:
        raise QirError("unexpected argument %r" % s)
    kind = {"%Qubit*": "qubit", "%Result*": "result", "ptr": "ptr", "i8*": "i8"}[m.group(1)]
    if m.group(4) and m.group(4) != m.group(1):
        raise QirError("pointer types differ in %r" % s)
    return (kind, 0 if m.group(2) == "null" else int(m.group(3)))


def kind_of(t):
    t = t.replace(" writeonly", "").strip()
    return {"double": "double", "%Qubit*": "qubit", "%Result*": "result", "ptr": "ptr", "i8*": "i8"}.get(t, t)


class Program:
    """calls: executed calls [(function, [(kind, value)])] from the entry point."""

    def __init__(self, text):
        self.declared = {}
        attrs, funcs = {}, {}
        cur = None
        for raw in text.split("\n"):
            line = raw.split(";")[0].strip() if '"' not in raw else raw.strip()
            if not line:
                continue
            m = re.match(r"^attributes #(\d+) = \{(.*)\}$", line)
            if m:
                attrs[m.group(1)] = m.group(2)
                continue
            m = re.match(r"^declare void @([A-Za-z0-9_.]+)\((.*)\)(?: #\d+)?$", line)
            if m:
                if m.group(1) in self.declared:
                    raise QirError("%s declared twice" % m.group(1))
                self.declared[m.group(1)] = [kind_of(a) for a in split(m.group(2))]
                continue
            m = re.match(r"^define (\S+) @([A-Za-z0-9_.]+)\(\)(?: local_unnamed_addr)?(?: #(\d+))? \{$", line)
            if m:
                cur = {"attr": m.group(3), "blocks": {}, "order": []}
                funcs[m.group(2)] = cur
                block = None
                continue
            if cur is not None:
                if line == "}":
                    cur = None
                    continue
                m = re.match(r"^([A-Za-z0-9_.]+):", line)
                if m:
                    block = m.group(1)
                    cur["blocks"][block] = []
                    cur["order"].append(block)
                    continue
                cur["blocks"][block].append(line)
        entries = [f for f in funcs.values() if f["attr"] is not None and '"entry_point"' in attrs.get(f["attr"], "")]
        if len(entries) != 1:
            raise QirError("%d entry points" % len(entries))
        f = entries[0]
        a = attrs[f["attr"]]
        self.qubits = self.number(a, "num_required_qubits", "requiredQubits")
        self.results = self.number(a, "num_required_results", "requiredResults")
        m = re.search(r'"qir_profiles"="([^"]*)"', a)
        # the profile and version that the module declares
        self.profile = (m and m.group(1), tuple(sorted(re.findall(r'^!\d+ = !\{i32 \d+, !"(\w+)", (i\d+ \w+)\}$', text, re.M))))
        self.calls = []
        b, seen = f["order"][0], set()
        while True:
            if b in seen:
                raise QirError("loop")
            seen.add(b)
            nxt = None
            for line in f["blocks"][b]:
                m = CALL.match(line)
                if m:
                    args = [argument(x) for x in split(m.group(2))]
                    if m.group(1) not in self.declared:
                        raise QirError("%s is not declared" % m.group(1))
                    if self.declared[m.group(1)] != [k for k, _ in args]:
                        raise QirError("%s declared with %s, called with %s" % (m.group(1), self.declared[m.group(1)], args))
                    self.calls.append((m.group(1), args))
                    continue
                m = re.match(r"^br label %([A-Za-z0-9_.]+)$", line)
                if m:
                    nxt = m.group(1)
                    break
                if line.startswith("ret "):
                    return
                raise QirError("unexpected instruction %r" % line)
            if nxt is None:
                raise QirError("block without an end")
            b = nxt

    @staticmethod
    def number(a, *names):
        for n in names:
            m = re.search(r'"%s"="(\d+)"' % n, a)
            if m:
                return int(m.group(1))
        raise QirError("no %s" % names[0])


def expected_calls(ops, bits=True):
    """The calls of a circuit (ops as program entries), without initialisation."""
    gates, meas, out = [], [], []
    for o in ops:
        if o[0] == "Identity":
            continue
        if o[0] == "Measurement":
            for q, b in zip(o[2], o[3]):
                meas.append(("__quantum__qis__mz__body", [("qubit", q), ("result", b)]))
                out.append(("__quantum__rt__result_record_output", [("result", b), ("i8", 0)]))
        else:
            gates.append(("__quantum__qis__%s__body" % QIS[o[0]],
                          [("double", float(p)) for p in o[1]] + [("qubit", q) for q in o[2]]))
    return [("__quantum__rt__initialize", [("i8", 0)])] + gates + meas + out


def opaque(calls):
    return [(f, [(k if k == "double" else "ptr", v) for k, v in a]) for f, a in calls]


def disassemble(bitcode):
    r = subprocess.run(["llvm-dis", "-", "-o", "-"], input=bitcode, capture_output=True)
    if r.returncode:
        raise QirError("llvm-dis: %s" % r.stderr.decode()[:300])
    return r.stdout.decode()


def pointer(kind, i, null0=True):
    t = "%" + kind + "*"
    return "%s null" % t if i == 0 and null0 else "%s inttoptr (i64 %d to %s)" % (t, i, t)


def number(x, style=0):
    if style == 1:
        return "0x" + struct.pack(">d", float(x)).hex().upper()
    return "%.17e" % float(x)


def write(blocks, nq, nr, tail=None, null0=True, style=0, entry="main", helper=None, attr_names=True):
    """QIR text. blocks: lists of calls (function, [(kind, value)]); tail: calls in a block after the return."""
    types = {"double": "double", "qubit": "%Qubit*", "result": "%Result*", "i8": "i8*"}
    decl, lines = {}, []

    def call(f, args):
        decl[f] = [types[k] for k, _ in args]
        a = []
        for k, v in args:
            if k == "double":
                a.append("double " + number(v, style))
            elif k == "qubit":
                a.append(pointer("Qubit", v, null0))
            elif k == "result":
                a.append(pointer("Result", v, null0))
            else:
                a.append("i8* null")
        return "  call void @%s(%s)" % (f, ", ".join(a))

    for i, b in enumerate(blocks):
        lines.append("%s:" % ("entry" if i == 0 else "b%d" % i))
        lines += [call(f, a) for f, a in b]
        if i + 1 < len(blocks):
            lines.append("  br label %%b%d" % (i + 1))
        else:
            lines.append("  ret void")
    if tail is not None:
        lines.append("dead:")
        lines += [call(f, a) for f, a in tail]
        lines.append("  ret void")
    out = ["; ModuleID = 'x'", 'source_filename = "x"', "", "%Qubit = type opaque", "%Result = type opaque", "",
           "define void @%s() #0 {" % entry] + lines + ["}", ""]
    for f, ts in decl.items():
        out.append("declare void @%s(%s)" % (f, ", ".join(ts)))
    out += ["", 'attributes #0 = { "entry_point" "num_required_qubits"="%d" "num_required_results"="%d" '
            '"output_labeling_schema" "qir_profiles"="custom" }' % (nq, nr), "",
            "!llvm.module.flags = !{!0, !1, !2, !3}", "",
            '!0 = !{i32 1, !"qir_major_version", i32 1}', '!1 = !{i32 7, !"qir_minor_version", i32 0}',
            '!2 = !{i32 1, !"dynamic_qubit_management", i1 false}',
            '!3 = !{i32 1, !"dynamic_result_management", i1 false}', ""]
    return "\n".join(out)
