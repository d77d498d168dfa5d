import json,sys,subprocess
claimed=sys.argv[1].split(",")
props=[json.loads(l) for l in open("/verif/properties.jsonl")]
hook=subprocess.check_output(["git","-C","/repo","log","--format=%H","--grep=verification hook"],text=True).split()
notes=json.load(open("/verif/tools/levelnotes.json"))
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in claimed:
        checks.append({"property":i,"quick_cmd":f"bash check.sh {i}","thorough_cmd":f"bash check.sh {i} thorough",
          "technique":notes[i][0],"level":"exploration","level_note":notes[i][1]})
    else: na.append({"property":i,"reason":"check still being built"})
m={"version":1}
m.update({"setup_cmd":"bash setup.sh","hooks":{"guard":"cfg(ripp_verif)","enable":"RUSTFLAGS --cfg ripp_verif, set in /verif/harness/.cargo/config.toml","source_commits":hook},"checks":checks,"not_applicable":na})
import jsonschema
jsonschema.validate(m,json.load(open("/root/.vp/MANIFEST.schema.json")))
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
