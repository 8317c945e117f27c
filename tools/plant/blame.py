import os,re,subprocess
S='/verif/seeded'
for i in sorted(os.listdir(S)):
    cur=None;ln=0;orig=0;mine=0
    for l in open(S+'/'+i+'/patch.diff'):
        if l.startswith('--- '): cur=l[6:].strip()
        elif l.startswith('@@'): ln=int(re.match(r'@@ -(\d+)',l).group(1))
        elif l.startswith('-') :
            b=subprocess.run(['git','-C','/repo','blame','-l','-L%d,%d'%(ln,ln),'HEAD','--',cur],capture_output=True,text=True).stdout
            base=b.startswith('^') or b.startswith(subprocess.run(['git','-C','/repo','rev-parse','9ba1441'],capture_output=True,text=True).stdout.strip())
            orig+=base; mine+=not base; ln+=1
        elif l.startswith(' '): ln+=1
    print(i,'orig',orig,'mine',mine,'' if orig else '<<<<')
