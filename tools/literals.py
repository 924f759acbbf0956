"""The numeric literals that /repo's sources have more often than the reviewed tree had: the search tries them as sizes, identifiers and values.
`python3 tools/literals.py` rewrites the record of the reviewed tree."""
import collections, glob, json, os, re

HERE = os.path.dirname(os.path.abspath(__file__))


def count(repo):
    c = collections.Counter()
    for f in sorted(glob.glob(repo + "/src/**/*.rs", recursive=True)):
        s = open(f, errors="replace").read()
        s = re.sub(r"//[^\n]*|/\*.*?\*/|\"(?:\\.|[^\"\\])*\"", " ", s, flags=re.S)
        for m in re.finditer(r"(?<![\w.])(\d[\d_]*(?:\.\d[\d_]*)?(?:[eE][-+]?\d+)?)", s):
            try:
                c[repr(float(m.group(1).replace("_", "")))] += 1
            except ValueError:
                pass
    return c


def extra(repo):
    base = json.load(open(HERE + "/literals.json"))
    return sorted(k for k, n in count(repo).items() if n > base.get(k, 0))


if __name__ == "__main__":
    json.dump(count("/repo"), open(HERE + "/literals.json", "w"), indent=0, sort_keys=True)
