import json,subprocess,sys
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
claimed=set(l.split()[0] for l in subprocess.check_output(['/verif/target/debug/rrr-pbt','list'],text=True).splitlines())
claimed|=set(sys.argv[1:])
tech=json.load(open('/verif/tools/technique.json'))
m=dict(version=1,setup_cmd='bash /verif/setup.sh',hooks=dict(guard='(no hooks)',enable='the checks use the public API only',source_commits=[]),checks=[],not_applicable=[])
for p in props:
    i=p['id']
    if i in claimed:
        m['checks'].append(dict(property=i,quick_cmd=f'bash /verif/run.sh {i} quick',thorough_cmd=f'bash /verif/run.sh {i} thorough',
            technique=tech.get(i,{}).get('technique','property-based testing: choice-sequence generators with shrinking against a reference oracle'),
            level='exploration',level_note=tech.get(i,{}).get('note','')))
    else:
        m['not_applicable'].append(dict(property=i,reason='check under construction'))
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
