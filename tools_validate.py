"""python3-vt tools_validate.py: validate the json files against the schemas."""
import glob, json
import jsonschema

S = lambda n: json.load(open("/root/.vp/%s.schema.json" % n))
for l in open("properties.jsonl"):
    jsonschema.validate(json.loads(l), S("PROPERTIES"))
jsonschema.validate(json.load(open("MANIFEST.json")), S("MANIFEST"))
for f in glob.glob("evidence/*.json"):
    jsonschema.validate(json.load(open(f)), S("EVIDENCE"))
print("valid")
