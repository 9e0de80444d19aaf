import sys, random, json, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.environ.get("VP_REPO", "/repo"))
import inst, oracle
s=int(sys.argv[1]); I=inst.gen(random.Random(s), sys.argv[2] if len(sys.argv)>2 else None)
r=inst.run_instance(I)
print("@@",I["fam"],I["kw"],I["solve"]); print("@@",I["nodes"]); print("@@",I["edges"]); print("@@",r); print("@@",oracle.check(I,r))
