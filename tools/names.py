"""names.py: record the function names and signatures of the tree (engine/names.json)"""
import sys, os, tempfile, shutil
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [R, R + '/engine']
import prog, alias, contracts
import tasks
d = tempfile.mkdtemp()
alias.record(prog.Prog('gnu', d), contracts.CONTRACTS)
shutil.rmtree(d)
