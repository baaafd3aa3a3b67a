#!/usr/bin/env python3
import json
V='/verif/'
T={
'C01':('simulated heap: same program under different heap contents and recycling policies, seeded search','Every operation is run under several adversarial heap fillings and recycling policies, and after other calls; results must be bit-identical and no element read may come from memory nobody wrote.'),
'C02':('seeded schedule search over tasks sharing matrices, with faults injected into some tasks','2-5 tasks run scripts on shared matrices and decompositions under PCT, random and burst schedules; every result is compared with the result of the same call run alone in another process.'),
'C03':('operands watched at every simulator step, with callback and arithmetic failures','Operand contents and shape are compared with the original at every yield point, after every injected failure, and the call is repeated.'),
'C04':('element and callback panics swept over in-place operations','Every in-place operation is cut by a panic at sampled element operations and callbacks; every element must be old or new and the matrix must stay usable.'),
'C05':('panic injection into every kind of user code, payload compared','The injected panic payload must be the one that reaches the caller.'),
'C06':('recorded callback history checked against a reference sequence, with failing callbacks','The sequence of callbacks with its arguments is checked against the definition, with and without callbacks that fail.'),
'C07':('re-entrant calls from callbacks and arithmetic under the simulated scheduler','Operations are re-entered from callbacks and element arithmetic to depth 3 by one or more tasks; all results are compared with un-nested runs and deadlocks are detected by the scheduler.'),
'C08':('operands overwritten, dropped and their memory recycled between calls; snapshots compared','Histories of calls, in-place updates and drops with aggressive recycling; every live result is compared with its snapshot after each step.'),
'C09':('seeded histories, failed calls included, checked step by step against an executable reference model','Histories of 5-60 calls against a vector-of-rows model over integers, a prime field and floats, with rejected and failing calls, extreme shapes and out-of-range arguments.'),
'C10':('simulated file system: arbitrary read sizes, interruptions and tasks reading at once','The same bytes are delivered under many delivery plans; the matrix must be the one of a reference parser.'),
'C11':('simulated file system: errors, truncation, replacement and corruption at any byte','Any damage must lead to a panic or to the matrix of exactly the bytes delivered.'),
'C12':('simulated heap and descriptor table audited after failures at every kind of fault point','Live blocks, bytes and descriptors are compared before and after each call, completed, rejected, or cut by an injected failure.'),
'C13':('simulated entropy and tasks drawing at once, reference draws in a forked process','The elements must be the next rows x columns draws of the calling thread, in order, also after failed draws.'),
'C14':('fmt::Write and io::Write sinks failing at every call or byte','The text received must be the whole reference text, or exactly a prefix with the error returned.'),
'C15':('seeded schedules of printing tasks on a simulated standard output with short, interrupted and failing writes','The captured output must be a sequence of whole matrices, one per call.'),
'C16':('allocation refused at every allocation number in forked processes; guarded blocks','Each refusal must end the process cleanly, panic, or give the right result; guard bytes around every block are audited.'),
'C17':('arithmetic faults (NaN, infinity, sign, scale, last bit) at sampled operations under an operation budget','Every call must end within a budget of element operations; fault-free decompositions of hard matrices must return.'),
}
NA={
'C18':'Numeric accuracy of a pure function of one matrix: no schedule, clock, I/O, fault or history takes part, so a simulator decides nothing that plain input generation does not.',
'C19':'Numeric accuracy of pure functions (solve, inverse, determinant): nothing nondeterministic takes part for a simulator to control.',
'C20':'Pure function of its input matrix (Cholesky existence and accuracy): no schedule, fault or history takes part.',
'C21':'Pure function of its input matrix (QR accuracy and least squares): no schedule, fault or history takes part.',
'C22':'Pure function of its input matrix (SVD accuracy and ordering): no schedule, fault or history takes part.',
'C23':'Pure function of its input matrix (eigen accuracy): no schedule, fault or history takes part.',
'C24':'Pure functions (norms, trace, comparison, pseudo-inverse accuracy): no schedule, fault or history takes part.',
}
m={'version':1,'setup_cmd':'./check.sh setup','checks':[],'not_applicable':[{'property':k,'reason':v} for k,v in sorted(NA.items())],
'notes':'No hooks in /repo: the seams are the element type parameter, callbacks, the global allocator and libc symbols. Every check builds /verif/sim against /repo in a dev and a release build. Replay a reported case with ./check.sh replay FILE (exit 1: reproduced).'}
for k,(t,n) in sorted(T.items()):
    m['checks'].append({'property':k,'quick_cmd':'./check.sh %s quick'%k,'thorough_cmd':'./check.sh %s thorough'%k,'evidence_file':'evidence/%s.json'%k,
      'technique':'deterministic simulation with fault injection: '+t,'level':'exploration',
      'level_note':n+' Sampled by seeded search, so a clean run is evidence within the explored cases; trusts the simulator in /verif/sim and the reference oracles there.'})
open(V+'MANIFEST.json','w').write(json.dumps(m,indent=1)+'\n')
