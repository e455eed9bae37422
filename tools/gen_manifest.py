#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'C01': ('random, mutated and exhaustively enumerated strings against an independent RFC 3986 recogniser', 'all strings up to 4 or 5 symbols of several alphabets are enumerated; longer ones sampled'),
 'C02': ('random and enumerated URLs against an independent RFC 3986 splitter', 'every observer of view and url compared with the reference, including where the pointers lie'),
 'C03': ('random encoded components against a reference percent-decoder', 'all byte values and all two-hex-digit forms are enumerated; differential over allocators'),
 'C04': ('round-trip of random byte strings through plain setters, with a reference encoder', 'all one- and two-byte strings enumerated per setter in several states'),
 'C05': ('random and enumerated arguments to encoded setters against per-component reference grammars', 'acceptance, verbatim storage and removal judged by the reference'),
 'C06': ('stateful model-based histories; each state re-parsed and compared (metamorphic) and validated by the reference', 'all pairs of fixed operations on 25 states are enumerated, longer histories sampled'),
 'C07': ('metamorphic: components before and after each setter, over generated states, against a model of separators', 'all operations on enumerated states, random arguments'),
 'C08': ('fault enumeration: every allocation of each generated call made to fail, plus malformed and ambiguous arguments; state compared before and after', 'every allocation point of each generated call fails once; leaks and double frees counted by the allocator'),
 'C09': ('stateful histories over an instrumented allocator, invariants after every call', 'block sizes, NUL termination, stability of data() judged after every call'),
 'C10': ('random paths and random walks of ++ and -- against a list model', 'three kinds of iterators over the same URL'),
 'C11': ('stateful list edits against a vector model and the path reference', 'edits the grammar cannot express with noexcept erase are a known finding'),
 'C12': ('random queries and random walks of ++ and -- against a list model', 'three kinds of iterators over the same URL'),
 'C13': ('random queries and keys against a linear scan of the decoded reference list', 'keys drawn from the query, near misses and random bytes'),
 'C14': ('random and enumerated hosts by every route against a reference host classifier', 'routes: parsing, all setters, later modifications'),
 'C15': ('fuzzing of parsing and histories under ASan, UBSan, assertions and valgrind, arguments in exact-size heap blocks', 'three builds: sanitizers, optimised, memcheck'),
 'C16': ('random pairs of urls and histories: copies and moves against a value model, with allocation faults', 'independence checked by modifying either side'),
 'C17': ('enumerated case mixtures and random strings against a reference scheme table and normaliser', 'all case variants of known schemes and one-character neighbours enumerated'),
 'C18': ('stateful allocation sequences on pools of many sizes against an interval model', 'element types of alignment 1 to 64, oversized and overflowing requests'),
 'C19': ('random composite arguments against the reference parser and a model of the replaced range', 'all states times argument classes'),
 'C20': ('random target URLs rebuilt from parts in random orders; idempotence and commutation relations', 'text equality with the target'),
 'C21': ('differential: seven configurations loaded side by side and given the same inputs and histories', 'complete transcripts compared'),
 'C23': ('metamorphic: the same generated program before and after others, interleaved, in other locales and in several threads (ThreadSanitizer)', 'schedules are those the operating system produced; a race is also reported when it did no harm'),
 'C24': ('random families of growing inputs; branches and bytes counted at three sizes must grow linearly, allocations counted', 'the count is deterministic: no clock is read; sizes 3000 to 12000 bytes'),
 'C22': ('random and enumerated refusals: exception types; error codes checked over the whole int range sampled', 'any other escaping exception is a failure'),
}
checks = []
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
for p in props:
    i = p['id']
    checks.append({
        'property': i,
        'quick_cmd': 'python3 run_check.py ' + i,
        'thorough_cmd': 'python3 run_check.py %s --tier thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'property-based testing and fuzzing: ' + TECH[i][0],
        'level': 'fault_enumeration' if i == 'C08' else 'exploration',
        'level_note': TECH[i][1] + '. Trusts the reference model in harness/ref.hpp and the instrumented builds; evidence/%s.json states the counts of each run.' % i,
    })
m = {'version': 1, 'setup_cmd': 'python3 -c "import shutil,sys; sys.exit(0 if all(shutil.which(x) for x in (\'g++\',\'clang++\',\'valgrind\')) else 1)"',
     'checks': checks, 'not_applicable': [],
     'notes': 'No hooks: every check compiles /repo/include and /repo/src as they are. Each check builds its harness in a scratch directory under $TMPDIR and removes it.'}
open(os.path.join(HERE, 'MANIFEST.json'), 'w').write(json.dumps(m, indent=1) + '\n')
