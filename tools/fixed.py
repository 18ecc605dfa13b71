#!/usr/bin/env python3
"""Adds the fix commits of /repo to known-findings.txt (property of each by its subject)."""
import subprocess
P={"numbers that begin":"C18","a template loop over a node named":"C20","a graph can be copied":"C13","blank and comment":"C01","a lone CR":"C01","keep the indentation of":"C02","quoted text at ind":"C02","backslashes in quoted":"C02","text emitted for a":"C04",
"text emitter must":"C04","short reads":"C03","Rune must":"C03","a read error":"C08","second byte":"C07","truncated or":"C08","GetBinary":"C09","content that cannot":"C07",
"Set with an index":"C12","adding a nil":"C13","Copy must":"C14","Merge must":"C13","Equals and":"C13","methods must accept":"C17","isInteger":"C17","StringCSV":"C17",
"String, StringTxt":"C16","schema check":"C30","a path element after":"C11","parentheses":"C18","integer division":"C18","assignments must":"C19","an empty group":"C05",
"Delete on an event":"C32","$break":"C20","$for over":"C20","$for must":"C20","a dot after a variable in":"C20","calls with wrong":"C33","functions that":"C33",
"the server must":"C26","the server (protocol":"C26","the client must accept":"C28","the client must close":"C28","gtemplate":"C34","simplifying":"C25","JSON must not":"C22",
"JSON strings":"C24","JSON must have":"C24","FromJSON must return all":"C23","FromJSON must return the same":"C23","lines with less":"C01","SpaceMax":"C35","a selector":"C11","a dot after a variable at":"C20","setting a node to itself":"C12","merging a graph":"C13","StringTxt must":"C16","ThisString must":"C16","an expression may begin":"C18","the result of a method":"C33","template text that looks":"C20","large unsigned":"C24","undoing a repeated":"C35","setting an index too":"C05","calling a nil":"C05","names in expressions":"C05"}
import sys
sys.path.insert(0,'/verif/tools')
log=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s'],text=True).splitlines()
out=[]
for l in log:
    h,s=l.split(' ',1)
    if not s.startswith('fix: '): continue
    s=s[5:]
    for k,v in list(P.items())+list(globals().get('EXTRA',{}).items()):
        if s.startswith(k):
            out.append(f"fixed: property={v} {h} {s}"); break
    else:
        out.append(f"fixed: property=? {h} {s}"); print("no property for",s)
f='/verif/known-findings.txt'
try: old=open(f).read().splitlines()
except FileNotFoundError: old=[]
keep=[l for l in old if not l.startswith('fixed:')]
open(f,'w').write('\n'.join(keep+out)+'\n')
