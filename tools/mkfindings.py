M={"edge lengths and midpoints of elements of higher":"C19","1D and 3D":"C22","passive scalars":"C22","spanwise mode -1":"C22","wrong direction":"C22","map2D on meshes":"C17",".rea files of meshes without":"C07","end of the name":"C23","nonexistent faces":"C15","all layers but the first":"C10","fun and funpar":"C24","contain part of":"C04","single precision data":"C01","big-endian .re2":"C06","three characters":"C07","writerea changed":"C08","element map at its old":"C20","curved sides out of date":"C20","overwrote the curvature":"C08","centre of rotation":"C16","smallest_edge":"C19","single element in the radial":"C25","limits of a mesh":"C18"}
import subprocess
o=subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s"],capture_output=True,text=True).stdout.splitlines()
L=["# Findings","","Genuine defects found by the checks. `fixed:` entries were repaired in /repo and suppress nothing; there are no","open (unrepaired) findings, so no check prints a KNOWN-FINDING line.",""]
for l in o:
    h,s=l.split(" ",1)
    if not s.startswith("fix:"): continue
    k=[M[m] for m in M if m in s]
    assert len(k)==1,(s,k)
    L.append(f"fixed: property={k[0]} {h} {s[5:]}")
open("/verif/KNOWN_FINDINGS.md","w").write("\n".join(L)+"\n")
