#!/usr/bin/env python3
# run with python3-vt; regenerates MANIFEST.json and KNOWN_FINDINGS.txt from properties.jsonl
import json,subprocess
P=[json.loads(l) for l in open('/verif/properties.jsonl')]
NA={"C19":"static comparison of two constant tables: there is no schedule, fault, I/O or interleaving to simulate",
"C20":"pure function of a byte string: there is no schedule, fault, I/O or interleaving to simulate (C04 compares the filter with a reference model on simulated runs, C16 its memory accesses)",
"C21":"developer tool, a pure function of one file read once: there is no schedule, fault or interleaving the claim depends on"}
T="deterministic simulation with fault injection: seeded search over "
D={
"C01":("trees, listing orders, failing calls, concurrent creators and kills","conservation of every directory entry checked on the final simulated tree and the recorded history"),
"C02":("names, tables, trees, failing calls and other programs","every state-changing call recorded by the simulated kernel must be an in-place rename of one entry"),
"C03":("trees, options, ignore lists, listing orders and failing calls","selection model on the tree as it was at each moment of the history"),
"C04":("names, sequences, configurations, locales, orders and faults","new name of every rename compared with an executable reference model of the filters"),
"C05":("trees and failing calls on single entries","completeness: every selected entry not hit by a fault has its new name at the end"),
"C06":("listing behaviours, non-idempotent sequences and faults","renames per entry and visit, and a bound on the number of calls"),
"C07":("options, modes, inputs and failing calls","no mutating call may even be attempted"),
"C08":("kill points, losses of not yet durable renames, and restarts","state after restart compared with what is selected; a third run must rename nothing"),
"C09":("trees, collisions, failing calls and listing errors","announcements and error messages compared with the calls really made"),
"C10":("malformed, truncated and unreadable configuration and table files","no rename, no output, failure status and message; tables passed over must equal the fall-back in the reference model"),
"C11":("failing allocations at every point","outcome must equal the run without the failure or be a reported failure; guarded heap"),
"C12":("input streams, splits into reads, inputs and sequences","output compared with a reference model of the conversion"),
"C13":("read, open and write errors at any byte of any stream","output, message and exit status compared with the reference model"),
"C14":("presence, openability, readability and content of configuration files, environment and read splits","names and -L output compared with a reference parser and layering model"),
"C15":("tables, locales, locations, open failures and read splits","converted names and text compared with a reference table parser and search model"),
"C16":("inputs of all modes with failing calls, under two memory fills","no signal, no damaged guard, same visible behaviour with both fills"),
"C17":("trees, options and listing orders, a dry run followed by the real run","announced renames compared with the ones made"),
"C18":("interleavings of two or three runs at system-call granularity","conservation and completeness after all have ended"),
"C22":("names, shipped sequences, failing calls, kills and other programs, over three runs in a row","names left behind and renames of the last run checked against rules on characters, independent of any model of the filters"),
"C23":("large trees, many arguments, long streams and calls failing over and over","blocks of memory and descriptors in use at each simulated call and at exit bounded by a constant"),
}
checks=[]
for p in P:
    i=p["id"]
    if i in NA: continue
    checks.append({"property":i,"quick_cmd":f"python3 check.py {i} quick","thorough_cmd":f"python3 check.py {i} thorough","evidence_file":f"evidence/{i}.json",
    "technique":T+D[i][0],"level":"exploration",
    "level_note":"Oracle: "+D[i][1]+". Exploration: holds on every simulated execution of the seeds run, not a proof. Real code: all of the detox program and the C library; simulated: everything behind the system call interface and the allocator. Trusts the simulated kernel (sim/kern.cc) and the reference model (sim/model.cc)."})
json.dump({"version":1,"setup_cmd":"python3 tools/selftest.py","checks":checks,"not_applicable":[{"property":k,"reason":v} for k,v in NA.items()],
"notes":"No hooks in /repo: the seam is the system call interface (seccomp RET_TRAP inside the process) and the allocator symbols. Each check builds its own simulator from /repo's working tree into work/ (ignored by git)."},open('/verif/MANIFEST.json','w'),indent=1)
s=json.load(open('/root/.vp/MANIFEST.schema.json'))
import jsonschema; jsonschema.validate(json.load(open('/verif/MANIFEST.json')),s)
log=subprocess.run(['git','-C','/repo','log','--format=%h %s'],capture_output=True,text=True).stdout.splitlines()
K={
"fa3e17b":("C01","lstat() of the new name failing with anything but ENOENT was taken for 'free', so an existing file could be overwritten"),
"373ca2a":("C02","a clean name that is empty, '.', '..' or contains '/' (uncgi %2F, table texts) moved the file to another directory"),
"b8499b0":("C09","an entry whose lstat() failed when it was to be renamed was skipped without a message"),
"25dbf0d":("C01","a file created by another program between the existence check and rename() was overwritten"),
"e0f50e9":("C06","entries renamed while the directory was being read could be listed again and renamed twice; deep trees were abandoned with EMFILE"),
"f02319c":("C09","entries that cannot be examined and listing errors were passed over in silence; an entry whose lstat() failed was treated by the type of the previous one (C03)"),
"0b68535":("C03","after a match in the ignore list the next entry was only compared with the rest of the list, so an ignored name was renamed depending on the visiting order"),
"93644ad":("C16","inline mode read in front of its line buffer"),
"722eac2":("C13","read and write errors in inline mode were silent and ended with status 0"),
"d2df981":("C16","heap overflow: the default text of a table and the replacement of %00 were not considered when the output buffer was sized"),
"1bdcc93":("C04","lower changed bytes of multi-byte characters in 8-bit locales"),
"dbf66e2":("C15","an empty default in a table replaced characters with the word 'default' instead of leaving them alone"),
"d7fc424":("C10","a translation table that could only be read in part was used"),
"831adb2":("C15","a table of short lines had more rows than were reserved for it"),
"e77a651":("C15","a table with rows for the same character was rejected although they fit"),
"b63d429":("C16","crash when /dev/null could not be opened"),
"b3ab7c0":("C11","crash when the configuration scanner ran out of memory"),
"d76b453":("C11","a configuration file was passed over when opening it ran out of memory, and the built-in one used"),
"d97aaf0":("C12","the piece of a long line that is '.' or '..' was not cleaned"),
"785523c":("C01","an entry that had just been moved to the new name by another run was overwritten when something else had taken the old name"),
"8492a67":("C10","a configuration with an unterminated string was accepted, with a message on standard output that ended up in converted text"),
"5ada195":("C15","lines of a translation table longer than 1023 bytes were cut, and the rest of a long comment was taken for rows"),
"d810f30":("C23","memory taken for clean names, '.' and '..', the line buffer of each input and the names of arguments was never freed"),
"a04a673":("C16","memory behind a configuration string containing NUL was read and written"),
}
hs=[l.split()[0] for l in log if l.split(' ',1)[1].startswith('fix:')]
assert set(hs)==set(K),(set(hs)^set(K))
with open('/verif/KNOWN_FINDINGS.txt','w') as f:
    f.write("# Genuine defects found by the checks.  'fixed:' lines suppress nothing.  'finding:' lines (none at present) would be\n# 'finding: property=<id> match=<part of the violation text> <what fails>'.\n")
    for h in reversed(hs): f.write(f"fixed: property={K[h][0]} {h} {K[h][1]}\n")
