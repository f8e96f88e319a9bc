"""Stands in for the TOpt program: prints a gate synthesis matrix that is equivalent to the one it is given.

It reads a whitespace-separated parity matrix, drops equal pairs and zero columns, and prints the columns in reverse
order, with a header of two lines and a trailer, the way pyzx.todd.call_topt reads the program's output.
"""
import sys

if sys.argv[1] != "gsm":
    sys.exit("unexpected arguments %s" % sys.argv[1:])
rows = [line.split() for line in open(sys.argv[2])]
cols = list(zip(*rows))[::-1]
keep = []
for c in cols:
    if "1" not in c:
        continue
    if c in keep:
        keep.remove(c)
    else:
        keep.append(c)
print("TOpt\nInput gate synthesis matrix\n")
print("Output gate synthesis matrix\nn = %d, m = %d" % (len(rows), len(keep)))
for r in range(len(rows)):
    print("".join(c[r] for c in keep))
print("Successful\nTotal time = 0.1s")
