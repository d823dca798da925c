"""
Development aid: record the names of the current tree (sa/known.json).
"""

import ast
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from sa import normal  # noqa: E402

ROOT = os.environ.get("SA_ROOT", "/repo")


def main() -> None:
    trees = {}
    for folder, folders, files in os.walk(f"{ROOT}/runtimepy"):
        folders.sort()
        for name in sorted(files):
            if name.endswith(".py"):
                path = os.path.join(folder, name)
                mod = os.path.relpath(path, ROOT)[:-3].replace("/", ".").removesuffix(".__init__")
                with open(path, encoding="utf-8") as fd:
                    trees[mod] = ast.parse(fd.read())
    with open(normal.KNOWN, "w", encoding="utf-8") as fd:
        json.dump(normal.snapshot(trees), fd, separators=(",", ":"))
        fd.write("\n")


main()
