#!/usr/bin/env python3
import json, os
SEQ='explicit-state exploration of the real server (all operation histories to a depth under a virtual clock) against a reference state machine'
DATA='exhaustive enumeration of a bounded input space through the real code against a reference codec'
CONC='; all thread interleavings of instrumented real code up to a preemption bound'
T={'C01':DATA,'C02':DATA,'C03':SEQ,'C04':DATA,'C05':SEQ,'C06':SEQ,'C07':SEQ,'C08':SEQ,'C09':SEQ,'C10':SEQ,'C11':SEQ,'C12':SEQ,'C13':SEQ,
   'C14':SEQ,'C15':SEQ,'C16':SEQ,'C17':DATA,'C18':SEQ,'C19':SEQ,'C20':SEQ,'C21':DATA.replace('a reference codec','an independent expectation')}
HAVE_CONC='C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C19 C20'.split()
NOTE='Exhaustive within the bounds given in DESIGN.md, on the real code rebuilt from /repo; trusts the reference model in harness/seq and Go testing/synctest for the virtual clock.'
m=dict(version=1,setup_cmd='./check --setup',checks=[dict(property=k,quick_cmd='./check %s quick'%k,thorough_cmd='./check %s thorough'%k,
  technique='model checking: '+v+(CONC if k in HAVE_CONC else ''),level='model_checking',level_note=NOTE) for k,v in T.items()],not_applicable=[],
  notes='No hooks in /repo: harnesses and instrumented copies enter through go -overlay at build time. Repairs are the fix: commits listed in known-findings.txt.')
json.dump(m,open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','MANIFEST.json'),'w'),indent=1)
