"""tools/fixed.py <property> <commit> <what failed>: record a repaired defect."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(os.path.join(V, "known_findings.jsonl"), "a").write(f"fixed: property={sys.argv[1]} {sys.argv[2]} {' '.join(sys.argv[3:])}\n")
