import sys,os; sys.argv[0]=__file__
import run
os.makedirs(run.BUILD,exist_ok=True)
specs=sys.argv[1].split(",")
ex=run.build("PROBE",specs,None)
for s in specs: 
    os.symlink(ex[s],"/tmp/aprobe-"+s) if not os.path.islink("/tmp/aprobe-"+s) else (os.unlink("/tmp/aprobe-"+s),os.symlink(ex[s],"/tmp/aprobe-"+s))
