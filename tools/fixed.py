"""tools/fixed.py PROPERTY HASH ...: record fix commits of /repo in known_findings.json."""
import json, subprocess, sys
p='/verif/known_findings.json'
k=json.load(open(p)); prop=sys.argv[1]
for h in sys.argv[2:]:
    m=subprocess.run(['git','-C','/repo','log','-1','--format=%h %s',h],capture_output=True,text=True,check=True).stdout.strip()
    hh,_,msg=m.partition(' '); assert msg.startswith('fix: ')
    line=f'fixed: property={prop} {hh} {msg[5:]}'
    if not any(hh in x for x in k['fixed']): k['fixed'].append(line)
json.dump(k,open(p,'w'),indent=1)
