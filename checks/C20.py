"""C20: malformed armor is rejected, not repaired."""
import io

from checks.lib import case

BOUNDS = {"quick": {"templates": "one and two sections with 1..3 symbolic characters below U+0100 in: BEGIN line, label, body, padding, END line, before, between and behind the sections",
                    "line lengths": "every pair and selected triples of line lengths from {0, 1, 4, 60, 63, 64, 65, 68, 128}, all characters symbolic in the alphabet",
                    "labels": "every pair of BEGIN and END labels of 0..2 characters below U+0100", "streams": "0..3 sections with the expected or another label; one section whose label is the expected one with up to 2 symbolic characters before, in or behind it; pairs of line lengths; damaged sections"},
          "thorough": {"templates": "1..4 symbolic characters", "line lengths": "also every triple", "labels": "0..3 characters", "rest": "as quick"}}
OUTSIDE = ["free text longer than the holes", "strict_line_length=False, used for OpenSSH keys only (C21)"]
EXPECT_LABELS = ["section follows from the lines", "malformed armor rejected", "data of the lines", "stream: exactly one section"]
AGE = "AGE ENCRYPTED FILE"
B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
LENGTHS = (0, 1, 4, 60, 63, 64, 65, 68, 128)
ONE = "-----BEGIN A-----\nQUJD\n-----END A-----\n"
TEMPLATES = {
    "label": ["-----BEGIN ", "-----\nQUJD\n-----END A-----\n"],
    "both labels": ["-----BEGIN A", "-----\nQUJD\n-----END A", "-----\n"],
    "begin dashes": ["----", "BEGIN A-----\nQUJD\n-----END A-----\n"],
    "begin end": ["-----BEGIN A----", "\nQUJD\n-----END A-----\n"],
    "before": ["", ONE],
    "before on the line": ["\n", ONE],
    "behind": [ONE, ""],
    "between": [ONE, ONE],
    "body": ["-----BEGIN A-----\nQU", "JDQUJD\n-----END A-----\n"],
    "body start": ["-----BEGIN A-----\n", "QUJD\n-----END A-----\n"],
    "body end": ["-----BEGIN A-----\nQUJD", "\n-----END A-----\n"],
    "full line end": ["-----BEGIN A-----\n" + "QUJD" * 16, "QUJD\n-----END A-----\n"],
    "full line middle": ["-----BEGIN A-----\n" + "QUJD" * 15, "D\nQUJD\n-----END A-----\n"],
    "end label": ["-----BEGIN A-----\nQUJD\n-----END ", "-----\n"],
    "end dashes": ["-----BEGIN A-----\nQUJD\n-----END A---", "\n"],
    "end prefix": ["-----BEGIN A-----\nQUJD\n---", "END A-----\n"],
    "not closed": ["-----BEGIN A-----\n", ""],
    "second not closed": [ONE + "-----BEGIN A-----\n", ""],
    "cut off": ["-----BEGIN A-----\nQUJD\n-----END A-----", ""],
    "nested": ["-----BEGIN A-----\nQUJD\n-----BEGIN A-----\n", "QUJD\n-----END A-----\n"],
}


def cases(tier):
    q = tier == "quick"
    out = []
    for t in TEMPLATES:
        for n in range(0, 4 if q else 5):
            out.append(case(template, at=t, n=n, weight=n * n))
    for a in LENGTHS:
        out.append(case(lengths, first=(a,), more=1))
    for a in LENGTHS if not q else (4, 63, 64, 65):
        out.append(case(lengths, first=(64, a), more=1))
        if not q:
            out.append(case(lengths, first=(a, 64), more=1))
    for n in range(0, 3 if q else 4):
        out.append(case(label_pairs, n=n))
    for n in range(0, 9):
        out.append(case(padding, n=n))
    out += [case(streams, n=n) for n in range(0, 4)]
    out += [case(stream_label, n=n) for n in range(0, 3 if q else 4)]
    out += [case(stream_lengths, first=a) for a in LENGTHS]
    out += [case(stream_damaged, n=n) for n in range(0, 2 if q else 3)]
    return out


class Bad(Exception):
    pass


def b64value(h, text):
    """Strict base64 (RFC 4648) or Bad."""
    n = len(text)
    pad = 0
    while pad < n and pad < 3 and h.decide(text[n - 1 - pad] == "="):
        pad += 1
    if pad > 2 or n % 4:
        raise Bad("base64 length")
    if n and pad >= n:
        raise Bad("base64 padding")
    if not h.decide(h.all(*[c in B64 for c in text[:n - pad]])):
        raise Bad("base64 characters")
    out = b""
    for i in range(0, n, 4):
        v = 0
        for c in text[i:i + 4]:
            v = v * 64 + (0 if c == "=" else B64.index(c))
        out = out + bytes([v >> 16, (v >> 8) & 255, v & 255])
    return out[:len(out) - pad] if pad else out


def reference(h, text):
    """Sections of a text, by the definition of the property; Bad if it is malformed."""
    found = []
    label = None
    body = []
    left = text
    while len(left):
        i = left.find("\n")
        k = len(left) if i < 0 else i + 1
        line, left = left[:k], left[k:]
        bare = line[:-1] if i >= 0 else line
        if label is None:
            if i >= 0 and marker(h, bare, "BEGIN"):
                label = bare[11:-5]
                if not valid(h, label):
                    raise Bad("label")
                body = []
        elif marker(h, bare, "END"):
            if h.decide(h.no(bare[9:-5] == label)):
                raise Bad("END label")
            for j, b in enumerate(body):
                if len(b) > 64 or len(b) < 64 and j + 1 < len(body):
                    raise Bad("line length")
            found.append((label, b64value(h, "".join(body))))
            label = None
        else:
            body.append(line.strip())
    if label is not None:
        raise Bad("unterminated")
    return found


def marker(h, line, what):
    front = "-----" + what + " "
    if len(line) < len(front) + 5:
        return False
    if not h.decide(h.all(line[:len(front)] == front, line[-5:] == "-----")):
        return False
    return h.decide(h.all(*[c != "-" for c in line[len(front):-5]]))


def valid(h, label):
    if h.decide(label.upper() != label):
        return False
    if h.decide(h.any(*[c in "\r\n-" for c in label])):
        return False
    return not (len(label) and h.decide(h.any(label[0] == " ", label[-1] == " ")))


def judge(h, text):
    from age.utils.asciiarmor import read_ascii_armored
    got, err = h.run(sections, text)
    try:
        want = reference(h, text)
    except Bad:
        h.check(err is not None, "malformed armor rejected")
        return
    if err is not None:
        h.cover("stricter than required")
        return
    h.check(len(got) == len(want), "section follows from the lines")
    for (l1, d1), (l2, d2) in zip(got, want):
        h.check(l1 == l2, "section follows from the lines")
        h.check(d1 == d2, "data of the lines")


def sections(text):
    from age.utils.asciiarmor import read_ascii_armored
    return list(read_ascii_armored(io.StringIO(text)))


def template(h, at, n):
    parts = TEMPLATES[at]
    hole = h.text("hole", n, hi=0xFF)
    judge(h, hole.join(parts))


def lengths(h, first, more):
    last = h.choose("last", LENGTHS)
    lines = [h.text("line%d" % i, n, chars=B64) for i, n in enumerate(list(first) + [last])]
    text = "-----BEGIN A-----\n" + "\n".join(lines) + "\n-----END A-----\n"
    judge(h, text)


def label_pairs(h, n):
    m = h.choose("m", range(0, n + 1))
    a = h.text("a", n, hi=0xFF)
    b = h.text("b", m, hi=0xFF)
    judge(h, "-----BEGIN " + a + "-----\nQUJD\n-----END " + b + "-----\n")


def padding(h, n):
    """A short body of alphabet characters and padding."""
    body = h.text("body", n, chars=B64 + "=")
    judge(h, "-----BEGIN A-----\n" + body + "\n-----END A-----\n")


def streams(h, n):
    """n sections, each with the expected label or another one."""
    from age.utils.asciiarmor import AsciiArmoredInput
    text = ""
    want = []
    for i in range(n):
        d = h.text("d%d" % i, 4, chars=B64)
        which = h.choose("label%d" % i, [AGE, "OTHER"])
        text = text + "-----BEGIN " + which + "-----\n" + d + "\n-----END " + which + "-----\n"
        if which == AGE:
            want.append(b64value(h, d))
    inp, err = h.run(AsciiArmoredInput, AGE, io.BytesIO(text.encode("ascii")))
    if len(want) == 1:
        h.check(err is None, "stream: exactly one section")
        h.check(inp.read() == want[0], "stream: exactly one section")
    else:
        h.check(isinstance(err, ValueError), "stream: exactly one section")


def judge_stream(h, text):
    """The armored input stream: exactly one section with the expected label, everything well-formed."""
    from age.utils.asciiarmor import AsciiArmoredInput
    inp, err = h.run(AsciiArmoredInput, AGE, io.BytesIO(text.encode("ascii")))
    got = None
    if err is None:
        got, err = h.run(inp.read)
    try:
        lines = text.replace("\r\n", "\n").replace("\r", "\n")   # the stream reads text with any line ends
        found = [d for label, d in reference(h, lines) if h.decide(label == AGE)]
    except Bad:
        h.check(err is not None, "malformed armor rejected")
        return
    if len(found) != 1:
        h.check(err is not None, "stream: exactly one section")
    elif err is not None:
        h.cover("stricter than required")
    else:
        h.check(got == found[0], "data of the lines")


def framed(begin, body, end):
    return "-----BEGIN " + begin + "-----\n" + body + "-----END " + end + "-----\n"


def stream_label(h, n):
    hole = h.text("hole", n, lo=32, hi=126)
    at = h.choose("at", [0, 1, 4, len(AGE) - 1, len(AGE)])
    label = AGE[:at] + hole + AGE[at:]
    good = framed(AGE, "QUJD\n", AGE)
    other = framed(label, "REVG\n", label)
    judge_stream(h, h.choose("order", ["", good]) + other + h.choose("behind", ["", good]))


def stream_lengths(h, first):
    last = h.choose("last", LENGTHS)
    lines = [h.text("line%d" % i, n, chars=B64) for i, n in enumerate((first, last))]
    judge_stream(h, framed(AGE, "\n".join(lines) + "\n", AGE))


def stream_damaged(h, n):
    hole = h.text("hole", n, hi=126)
    a = "-----BEGIN " + AGE + "-----\n"
    good = a + "QUJD\n-----END " + AGE + "-----\n"
    text = h.choose("text", [(a, ""), (a + "QUJD", ""), (good + a, ""), (a + "QUJD\n-----END " + AGE, "-----\n"),
                             (a + "QU", "JD\n-----END " + AGE + "-----\n"), ("", good), (good, ""), (a, good), (good, good)])
    judge_stream(h, text[0] + hole + text[1])
