"""Child process of C21: parses what it is told to and prints the results as ASCII JSON.

Run as a plain script under the environment in question: argv = repo, verif, jobs file.
"""
import json
import os
import sys


def main():
    repo, verif, jobs = sys.argv[1:4]
    sys.path.insert(0, verif)
    sys.path.insert(0, repo)
    sys.dont_write_bytecode = True
    with open(jobs, encoding="ascii") as f:
        todo = json.load(f)
    from pathlib import Path

    import pytiled_parser

    if not os.path.realpath(pytiled_parser.__file__).startswith(os.path.realpath(repo) + os.sep):
        raise SystemExit("wrong package")
    from vm import project

    out = []
    for fn, p in todo["jobs"]:
        try:
            v = getattr(pytiled_parser, fn)(Path(p))
        except BaseException as e:
            out.append(["raised", type(e).__name__, ascii(str(e))[:300]])
        else:
            out.append(["ok", plain(project.any_(v))])
    data = json.dumps({"results": out, "seen": {
        "fs": sys.getfilesystemencoding(), "utf8": sys.flags.utf8_mode, "opt": sys.flags.optimize,
        "warn": list(sys.warnoptions), "hash": hash("x") & 0xFFFF, "cwd": os.getcwd(),
        "enc": __import__("locale").getencoding()}})
    with open(todo["answer"], "w", encoding="ascii") as f:
        f.write(data)


def plain(v):
    """JSON keys are texts: keep the keys' types visible."""
    if isinstance(v, dict):
        return {"dict": [[k, plain(x)] for k, x in v.items()]}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    return ["other", type(v).__name__]


if __name__ == "__main__":
    main()
