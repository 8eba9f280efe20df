# addfix.py PID : records last /repo commit as fixed for PID
import json,subprocess,sys
p='/verif/known_findings.json'; d=json.load(open(p))
for pid,rev in [a.split(':') if ':' in a else (a,'HEAD') for a in sys.argv[1:]]:
    h,s=subprocess.run(['git','-C','/repo','log','-1','--format=%h %s',rev],capture_output=True,text=True).stdout.strip().split(' ',1)
    s=s.replace('fix: ','')
    d['findings'].append({"property":pid,"status":"fixed","key":"","commit":h,"entry":"fixed: property=%s %s %s"%(pid,h,s)})
json.dump(d,open(p,'w'),indent=1)
