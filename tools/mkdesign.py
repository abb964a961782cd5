"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = "<!--table-->\n| change | caught by | needs | breaks |\n|---|---|---|---|\n"
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    t += "| %s | %s | %s | %s |\n" % (f.split("/")[-2], m["property"], m["needs"], m["what_it_breaks"])
t += "<!--/table-->"
p = root + "/DESIGN.md"
s = open(p).read().replace("@@TABLE@@", "<!--table--><!--/table-->")
s = re.sub(r"<!--table-->.*?<!--/table-->", lambda m: t, s, flags=re.S)
open(p, "w").write(s)
