#!/usr/bin/env python3
# python3 sim/replay.py FILE : rebuilds from /repo's current tree and re-executes a replay file. Exit 1 if the violation occurs again, 0 if not.
import os,subprocess,sys
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import build as B
exe=open(sys.argv[1]).readline().split('replay with:')[1].split()[0]; d,info=B.build([exe])
sys.exit(subprocess.run([f'{d}/{exe}','replay',os.path.abspath(sys.argv[1])]+([] if exe in ('c09','c12') else ['--known',B.VERIF+'/known_findings.txt'])).returncode)
