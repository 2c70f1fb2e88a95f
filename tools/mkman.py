import json,sys
sys.path.insert(0,'/verif/lib')
import props
notes=json.load(open('/verif/tools/levelnotes.json')) if __import__('os').path.exists('/verif/tools/levelnotes.json') else {}
ids=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
default="Explicit TLA+ specification checked by TLC; histories of the real code under a deterministic scheduler and virtual time are accepted or rejected by TLC against it. Covers the sampled programs and schedules, not all; trusts the simulated platform layer and the table-driven stand-in for generated code."
M=dict(version=1,setup_cmd="python3 lib/build.py --check",hooks=dict(guard="NONE",enable="no hooks: the platform is wrapped at link time",source_commits=[]),
 checks=[dict(property=i,quick_cmd="python3 check.py %s"%i,thorough_cmd="python3 check.py %s --thorough"%i,technique=notes.get(i,{}).get('t',"TLA+ (TLC) trace validation of the real runtime under a deterministic simulator"),
   level=props.PROPS[i][0],level_note=notes.get(i,{}).get('n',default)) for i in ids if i in props.PROPS],
 not_applicable=[dict(property=i,reason=notes[i]['na']) for i in ids if i not in props.PROPS],notes="See DESIGN.md.")
json.dump(M,open('/verif/MANIFEST.json','w'),indent=1)
import jsonschema
jsonschema.validate(M,json.load(open('/root/.vp/MANIFEST.schema.json')))
