"""Integers in the crate's source that stand there more often than when literals.txt was written.

They only serve to choose inputs (values.HINTS); on the tree this was written for there are none.
    hints.py REPO      writes literals.txt"""
import collections
import glob
import os
import re
import sys

FILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "literals.txt")
NUMBER = re.compile(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)((?:u|i)(?:8|16|32|64|128|size))?(?![\w.]*[\w])")


def literals(repo):
    """In the order in which they stand, files in alphabetical order."""
    out = []
    for f in sorted(glob.glob(os.path.join(repo, "src", "**", "*.rs"), recursive=True)):
        if os.path.basename(f) in ("verif.rs", "verif_affine.rs"):
            continue
        text = re.sub(r"//[^\n]*|/\*.*?\*/", " ", open(f, errors="replace").read(), flags=re.S)
        text = re.split(r"#\[cfg\(test\)\]\s*(?:pub )?mod|#\[test\]", text)[0]
        for m in NUMBER.finditer(text):
            digits = m[1].replace("_", "")
            try:
                out.append(int(digits, 0))
            except ValueError:                           # 007
                out.append(int(digits))
    return out


def new(repo):
    """Those that stand there more often than they did."""
    old = dict((int(x, 16), int(n)) for x, n in (line.split() for line in open(FILE)))
    now = literals(repo)
    count = collections.Counter(now)
    return list(dict.fromkeys(x for x in now if x > 1 and count[x] > old.get(x, 0)))[:60]


if __name__ == "__main__":
    with open(FILE, "w") as out:
        for x, n in sorted(collections.Counter(literals(sys.argv[1])).items()):
            out.write(f"{x:#x} {n}\n")
