import json,sys,glob
for f in sorted(glob.glob(f'/verif/evidence/replays/{sys.argv[1]}-*.json'))[:int(sys.argv[2]) if len(sys.argv)>2 else 5]:
    d=json.load(open(f)); print('=====',f)
    for k,v in d.items():
        if k in ('property','tier','tokens'): continue
        if isinstance(v,str) and '\n' in v: print(f'--{k}:\n{v}')
        else: print(f'--{k}: {str(v)[:1500]}')
