import json
for c in json.load(open("MANIFEST.json"))["checks"]:
    print(c["property"])
