import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or ["system calls made by the program","file tree after the run"]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","No file, directory or link is ever lost or overwritten",
"Whatever the tree, the order in which directories are listed, the system calls that fail, the moment the process is killed, and whatever other programs create in the same directories meanwhile, every directory entry that existed before a detox run, and every one somebody else creates during it, still exists afterwards with the same object and content, under either its old or its new name. If the cleaned name is already taken by something else, or it cannot be established that it is free, the entry keeps its old name.",
["inputs","schedules","crash_points","fault_sequences"],
"all trees (including hard links, symlinks, special files, colliding names, case-insensitive directories, devices with equal inode numbers), all listing orders, any failing call, any kill point, any create by another process between any two calls, on file systems that offer an exclusive rename",
"The tests make one or two files and check the new name; none has a failing lstat/rename, a concurrent creator, or a kill, and only a handful of collisions.",
["src/file.c","src/detox.c"],
[("target existence check before rename","parse_file() in src/file.c"),("rename itself","parse_file() in src/file.c")])
p("C02","A rename only ever changes the last component, in place",
"Every change detox makes to a file system is a rename of one existing entry to another name in the same directory: nothing is moved to another directory, created, deleted, truncated, or has its content or metadata changed, even when the cleaned name is empty, '.', '..' or contains a slash.",
["inputs","configurations","fault_sequences","schedules"],
"all names, sequences and translation tables (including ones that decode or insert slashes and dots), all trees, faults and listing orders",
"Tests only look at the expected new name; they never check that nothing else in the tree changed and never feed names that decode to path separators in rename mode.",
["src/file.c","src/clean_string.c"],
[("basename split and re-assembly of the new path","parse_file() in src/file.c")])
p("C03","Only the selected entries are touched",
"A run only ever renames the entries named on the command line and, for directories named there, the entries directly inside them, or all entries below them when recursion is on. While scanning a directory it never touches names that begin with a period or are listed in an ignore section (nor anything below such a directory), never touches symbolic links and special files unless --special is given, and never descends into a symbolic link; entries whose type cannot be determined are left alone.",
["inputs","configurations","schedules","fault_sequences"],
"all trees, option combinations, ignore lists, listing orders (which decide what is visited after what) and failing calls",
"One test per rule with one or two files; the visiting order, consecutive ignored names and failing lstat calls are never varied.",
["src/file.c","src/detox.c","src/filelist.c","src/config_file_yacc.y"],
[("ignore test while scanning","ignore_file() in src/file.c"),("type tests","parse_dir() in src/file.c, main() in src/detox.c")],
[("files_to_ignore","ignore list, walked through a shared cursor","filelist_t in src/detox_struct.h")])
p("C04","The new name is exactly what the chosen sequence makes of the original",
"Whenever detox renames an entry, the new name is the result of running the filters of the selected sequence, in their configured order with their configured options and tables, on the entry's name, and of nothing else: it does not depend on the other entries, on the order of visiting, on the path by which the entry is reached, on earlier failures, on the locale's character classes, or on other processes.",
["inputs","configurations","schedules","fault_sequences"],
"all names (any bytes), sequences and options from built-in, system or user configuration, visiting orders, failing calls and concurrent activity",
"The unit tests check single filters on fixed strings; the interaction of a whole run (many entries, faults, locales, configuration files) with the names is never compared with an independent model.",
["src/sequence.c","src/filter.c","src/clean_string.c","src/clean_utf_8.c","src/file.c","src/config_file_spoof.c","src/builtin_table.c"],
[("filter chain","sequence_run_filters() in src/sequence.c, filter_run() in src/filter.c"),("per-filter functions","src/clean_string.c, src/clean_utf_8.c")])
p("C05","A failure on one entry never stops the work on the others",
"If handling one entry or directory fails (it vanished, is unreadable, cannot be renamed, or its clean name is taken), every other selected entry whose cleaned name differs and is free is still renamed before the run ends. This holds for trees of any width.",
["fault_sequences","inputs","schedules"],
"all trees, all combinations of failing lstat/opendir/rename/listing calls, vanishing entries and permissions; running out of memory or of file descriptors, which ends the run with a message, excluded",
"No test injects a failing call, and none has a deep or wide tree.",
["src/file.c","src/detox.c"],
[("per-entry error returns","parse_file(), parse_dir() in src/file.c"),("argument loop","main() in src/detox.c")])
p("C06","Each entry is renamed at most once per visit, and every run ends",
"During one run no entry reached by scanning a directory is renamed more than once, even if the operating system lists an already renamed entry again under its new name and even if the sequence would change the new name again; and every run finishes in a number of steps bounded by the size of the tree.",
["schedules","inputs","configurations"],
"all listing behaviours POSIX allows for entries added while a directory is being read (never, once, at the end, at a random place, in any batch size), all sequences including ones that are not idempotent",
"The tests rename a few files in directories that fit in one listing call and use idempotent sequences.",
["src/file.c"],
[("directory scan interleaved with renames","parse_dir() in src/file.c")])
p("C07","Dry-run, inline, list, help and version modes modify nothing",
"With -n/--dry-run, in inline mode, and with -L, -h or -V, the program makes no change of any kind to any file system, whatever the arguments, configuration, input, failing calls or kill point; it does not even attempt a call that could modify one.",
["inputs","configurations","fault_sequences"],
"all option combinations including those modes, all trees, configurations, streams and failing calls",
"The tests for dry-run check one file; no test looks at attempted calls or at runs with failures.",
["src/file.c","src/detox.c","src/parse_options.c"],
[("dry_run test before rename","parse_file() in src/file.c"),("mode dispatch","main() in src/detox.c")])
p("C08","An interrupted run can simply be repeated",
"If a run is killed at any point, or the machine loses power, every entry is under either its old or its cleaned name, and running the same command again to completion (an argument that was already renamed being given under its new name) renames everything that is still selected and to be cleaned, and ends in a state an uninterrupted run could have produced. With a sequence that leaves clean names alone, a further run then renames nothing.",
["crash_points","schedules","inputs"],
"all kill points (before and after every system call), all losses of not yet durable renames, all trees, and all sequences that are idempotent on the names involved and do not turn them into names that scanning ignores",
"No test kills the program or runs it twice.",
["src/file.c","src/detox.c"],
[("one atomic rename per entry, no other state","parse_file() in src/file.c")])
p("C09","What was renamed, and what was refused, is reported truthfully",
"In verbose mode every rename that takes place is announced on standard output with its old and its new path, and nothing is announced that did not take place unless an error message on standard error names the same two paths. Every rename that was wanted but refused or failed, every argument and every directory entry to be renamed that cannot be examined and every directory that cannot be read or was only read in part is reported on standard error; in a run without -v/-n no rename is announced.",
["fault_sequences","schedules","inputs"],
"all trees, collisions, failing calls and listing errors in runs that are not killed and can write their messages; running out of file descriptors, which ends the run with a message, excluded",
"The tests ignore messages apart from one or two greps.",
["src/file.c","src/detox.c"],
[("messages around rename","parse_file() in src/file.c"),("messages on unreadable directories","parse_dir() in src/file.c")],
observe=["standard output","standard error","system calls made by the program"])
p("C10","Nothing is renamed unless all set-up succeeded",
"If a configuration file that could be opened has an error or cannot be read to its end, if the requested sequence does not exist, or if a translation table named in the configuration is missing, invalid or cannot be read to its end, or none can be found for a filter that needs one, then the run ends with a failure status and a message on standard error, without having renamed anything or written any converted text. A table found by the documented search that is invalid or cannot be read to its end is reported and passed over as if it were not there; no truncated or partly read configuration or table is ever put to use.",
["fault_sequences","configurations","inputs"],
"all configurations, malformed or truncated files, read errors at any byte, missing tables and sequences",
"Tests use three invalid detoxrc files and one bad built-in name; no read error is ever injected.",
["src/config_file.c","src/config_file_yacc.y","src/config_file_lex.l","src/parse_table.c","src/filter.c","src/detox.c"],
[("configuration parser error exit","yyerror() in src/config_file_yacc.y"),("table loading before the first file","sequence_review() in src/sequence.c, filter_load_table() in src/filter.c")],
observe=["exit status","standard error","system calls made by the program"])
p("C11","Running out of memory ends the run cleanly",
"If any memory allocation fails at any point, the program either carries on with unchanged results or stops with a failure status and a message on standard error; it never crashes, never hangs, and never leaves an entry under a name that is neither its old nor its cleaned name, or a wrong or incomplete conversion reported as success.",
["fault_sequences","inputs","configurations"],
"every single allocation made by the program or by the C library on its behalf, in every phase (options, configuration, tables, filters, scanning), all modes",
"Unit tests fail one wrapped malloc and one wrapped strdup; bin/mallocfail-wrapper.sh is manual, experimental and fails calls of one fixed command.",
["src/wrapped.c","src/config_file_lex.l","src/config_file_yacc.y","src/file.c","src/table.c","src/filelist.c"],
[("checked allocation","wrapped_malloc(), wrapped_strdup() in src/wrapped.c")],
observe=["exit status or signal","standard error","file tree after the run"])
p("C12","Inline conversion depends only on the text, not on how it arrives",
"In inline mode the output is, for every input line, the result of the selected sequence on that line (lines '.' and '..' unchanged) followed by a newline exactly if the input line had one, in the same order, from standard input or from each argument (a file, a link to one, a pipe) in turn. It does not depend on how the input is split into reads, and for lines longer than the internal buffer (about 1000 bytes) the same holds for sequences made of the character-by-character filters, with multi-byte characters never torn apart.",
["inputs","schedules","configurations"],
"all byte streams without NUL, all splits into reads, all alignments of multi-byte characters with the buffer boundary, with or without a final newline",
"The unit test places seven characters at the buffer boundary of a regular file with one sequence; it never varies read sizes, never mixes several long and short lines and never uses standard input.",
["src/file.c","src/detox.c","src/clean_utf_8.c"],
[("line reader with look-ahead over the buffer boundary","parse_inline() in src/file.c")],
observe=["standard output"])
p("C13","A failed read or write in inline mode is never silent",
"If an input of inline mode cannot be opened or read to its end, or any part of the output cannot be written, the program says so on standard error, and if output was lost it ends with a failure status. An unreadable input does not stop the following inputs from being converted.",
["fault_sequences","inputs"],
"all streams, read errors at any byte, open failures, directories as arguments, full disks and failing writes at any output byte",
"No test makes a read or write fail.",
["src/file.c","src/detox.c"],
[("stream loop","parse_inline() in src/file.c"),("argument loop","main() in src/detox.c")],
observe=["standard output","standard error","exit status"])
p("C14","Configuration is found, layered and selected as documented",
"Without -f the first system configuration file that can be opened is used and extended by ~/.detoxrc and then $XDG_CONFIG_HOME/detox/detoxrc, where later definitions of a sequence replace earlier ones of the same name and ignore lists add up; with -f only that file is used; if none can be opened the built-in configuration applies. The sequence run is the one named by -s, else by DETOX_SEQUENCE, else 'default', else the first one; of options given more than once, the last counts; an unknown name is an error.",
["configurations","fault_sequences","inputs"],
"all combinations of present, absent, unopenable, empty and overlapping configuration files, environment variables and options, independent of read sizes",
"Tests always pass -f or rely on no file being installed; the layering of system, home and XDG files is not exercised at all.",
["src/config_file.c","src/config_file_yacc.y","src/config_file_lex.l","src/config_file_spoof.c","src/config_file_dump.c","src/sequence.c","src/parse_options.c"],
[("search and layering","config_file_load() in src/config_file.c, parse_config_file() in src/config_file_yacc.y"),("sequence choice","sequence_choose_default() in src/sequence.c")],
observe=["output of -L and -L -v","names given by renames"])
p("C15","Translation tables take effect exactly as written",
"A translation table file found by search or named in the configuration maps exactly the characters it lists (in decimal, hex or octal, the last entry for a character winning, quoted or not) to exactly the given text, uses language-specific blocks exactly when the locale in the environment matches, and applies its default to everything else or leaves it alone if there is none. Search order and fall-back to the built-in table are as documented; size, order of rows and the way reads are split make no difference.",
["configurations","inputs","schedules"],
"all tables (any number and order of rows, duplicates, collisions, long texts), locales, table locations, open failures and read splits",
"The tests load a few small tables; hash collisions, many duplicates, tables without any matching block and long defaults are not covered.",
["src/parse_table.c","src/table.c","src/filter.c","src/builtin_table.c"],
[("table parser","parse_table() in src/parse_table.c"),("hash table","table_put(), table_get(), table_resize() in src/table.c"),("search","filter_find_table() in src/filter.c")],
observe=["names given by renames","standard output of inline mode"])
p("C16","No crash, memory corruption or dependence on uninitialised memory",
"For every command line, environment, configuration, translation table, tree, input stream and failing system call the program ends by itself with an exit status; it is never killed by a memory error or an abort, never writes or reads outside the memory it owns, and its visible behaviour is the same whatever unallocated memory happens to contain.",
["inputs","configurations","fault_sequences"],
"all inputs of all modes combined with all failing calls, under an allocator that guards block ends and fills fresh memory with arbitrary bytes",
"The tests run valgrind on one option-parsing case only.",
["src/file.c","src/clean_string.c","src/clean_utf_8.c","src/table.c","src/parse_table.c","src/config_file_yacc.y","src/config_file_lex.l","src/filelist.c","src/parse_options.c"],
[("output buffers sized from the longest table text","clean_*() in src/clean_string.c, src/clean_utf_8.c"),("line buffer look-back and look-ahead","parse_inline() in src/file.c")],
observe=["exit status or signal","allocator guards","outputs under different memory fills"])
p("C17","A dry run predicts the real run",
"For the same tree and options, when no two entries compete for the same name (none is cleaned to a name that another one has, had or is cleaned to), the renames a dry run announces are exactly the renames the real run then makes, apart from the directory part of paths below directories that the real run has already renamed; refusals are reported alike.",
["inputs","configurations","schedules"],
"all trees without competing names, all option combinations and sequences, any listing order in either run",
"The dry-run test checks one file and never compares with the real run.",
["src/file.c","src/detox.c"],
[("verbose/dry-run announcement","parse_file() in src/file.c")],
observe=["standard output of both runs","renames made by the second"])
p("C18","Several detox runs on the same tree at the same time are safe and complete",
"If several detox processes work on the same tree at the same time with the same sequence (one that leaves clean names alone), then whatever the interleaving of their steps nothing is lost or overwritten, all of them end, and afterwards every selected entry has its cleaned name unless another entry holds or held that name.",
["schedules","inputs"],
"all interleavings, at system-call granularity, of two or three runs over overlapping parts of a tree, all listing orders",
"No test runs two processes.",
["src/file.c","src/detox.c"],
[("check-then-rename","parse_file() in src/file.c"),("listing, then visiting by path","parse_dir() in src/file.c")])
p("C19","The built-in tables equal the shipped table files",
"Each built-in translation table maps every code to the same text as the table file of the same name that is distributed with the program (where such a file writes \\uXXXX, that character in UTF-8).",
["inputs"],"every code point in every built-in table","src/builtin_table.c is generated by hand-run 'make internals'; no test compares it with table/*.tbl.",
["src/builtin_table.c","table/safe.tbl","table/unicode.tbl","table/iso8859_1.tbl","table/cp1252.tbl"],
[("generator","src/generate_builtin_table.c")])
p("C20","The safe filter leaves no character that is special to a shell",
"For every string, the output of the built-in safe filter contains none of the control characters, blanks, quotes, brackets and other shell-special characters its table replaces.",
["inputs"],"all byte strings","The unit test samples strings; the claim is over all strings.",
["src/clean_string.c","src/builtin_table.c"],[("safe filter","clean_safe() in src/clean_string.c")])
p("C21","check-table accepts exactly the tables the program can use",
"The developer tool check-table reports a problem for a table if and only if loading it in the program would lose, misread or reorder an entry.",
["inputs"],"all table files","No test runs check-table.",
["src/check_table.c","src/table.c"],[("re-read and compare","check_table() in src/check_table.c")])
p("C22","With the shipped sequences what a run leaves behind is safe to use and settled",
"After a run, itself undisturbed or following a run that failed or was interrupted at any point, with one of the shipped sequences (default, utf_8, iso8859_1, iso8859_1-legacy, uncgi, lower; built in or from the shipped detoxrc), every selected entry has a name without control characters, blanks and the characters !\"$&'()*/:;<>?@[\\]`{|}, not beginning with -, _ or # and without two of - _ . in a row (with lower also without A-Z), except for entries the run complained about on standard error. With default, utf_8 and lower a further run renames nothing else.",
["inputs","configurations","fault_sequences","crash_points"],
"all trees and names, all shipped sequences and places of the configuration, all failures and kill points of the run before",
"Tests clean a dozen names and never look at the result of a whole run or run twice.",
["src/file.c","src/config_file_spoof.c","src/clean_string.c","src/builtin_table.c","etc/detoxrc"],
[("shipped sequences","etc/detoxrc and the built-in configuration"),("filters in a row","sequence_run_filters() in src/sequence.c")],
observe=["directory entries after each run","standard error","renames of a further run"])
p("C23","What a run holds on to does not grow with the work it has done",
"Memory and file descriptors in use do not grow with the number of entries, directories, lines and inputs that have been dealt with, whether they were renamed, left alone, refused or failed: at no time are more than a fixed number of descriptors open, however deep or wide the tree; when a run ends everything taken for an entry or directory has been given back, apart from a fixed number of blocks; and converting text inline needs a fixed number of blocks at any time.",
["inputs","fault_sequences","configurations"],
"all trees, arguments, streams and sequences, all failures of calls on entries, directories and inputs",
"Tests deal with one or two entries or lines and do not look at memory or descriptors.",
["src/file.c","src/filelist.c","src/detox.c","src/sequence.c","src/clean_string.c","src/clean_utf_8.c"],
[("list of a directory's entries","parse_dir() in src/file.c, src/filelist.c"),("old and new name of an entry","parse_file() in src/file.c"),("line buffer, streams","parse_inline() in src/file.c")],
observe=["descriptors open at each system call","blocks of memory in use at each system call and at exit"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert len(x['title'])<=80; 
for x in P:
    import re
    n=len(re.findall(r'[.;] (?=[A-Z])|\.$',x['statement'])); print(x['id'],n,len(x['title']))
