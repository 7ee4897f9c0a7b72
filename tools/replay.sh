#!/bin/sh
# replay.sh Cxx [seconds]: only the replay harness of a property
cd /verif && python3 - "$1" "${2:-20}" <<'P'
import sys,tempfile,shutil
src=open('/verif/check.py').read().rsplit('sys.exit(main())',1)[0]
p,s=sys.argv[1],int(sys.argv[2]); exec(compile(src.replace("os.path.abspath(__file__)","'/verif/check.py'"),'check','exec'))
w=tempfile.mkdtemp(prefix='vcheck.r.',dir='/tmp')
r=Replay(p,load("replay/config.json",{})[p],w,None); print(r.run(s), r.fail and r.fail['input'][:1500]); print("\n".join(r.log)[-1500:] if not r.fail else '')
shutil.rmtree(w)
P
