import json
def P(id,title,st,over,q,why,files,mech,state=(),obs=(),hook=None):
    return dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook))
L=[]
L.append(P("C01","Write-back is all-or-nothing under failures and crashes",
 "When a file is formatted in place, then at every instant, and after any I/O failure, kill or power loss at any point, the file exists and holds either exactly the text it had before or exactly its complete formatted text. It is never missing, empty, truncated, a mixture, or text that lost code or comments of the original. If the file cannot be formatted its bytes never change.",
 ["crash_points","fault_sequences","inputs","configurations"],
 "every crash point (process kill, power loss with any durable subset of unsynced data) and every sequence of failing, short or interrupted file operations during `afmt -w`, for any source file and configuration, in a directory where afmt may create files (elsewhere it can only write in place)",
 "the tests never use -w at all, never inject a failure and never crash; they compare the return value of the library call with a golden file",
 ["src/main.rs","src/formatter.rs"],[("format first, write after","src/main.rs run()"),("write branch of run()","src/main.rs run()")],
 [("target file","bytes a reader of the path sees / bytes that survive power loss","the path given on the command line")],
 ["file system state after every file operation","recovered file system after a crash"]))
L.append(P("C02","Exit status and output tell the truth under I/O failures",
 "A command exits 0 only if its whole effect happened: a dry run delivered the complete formatted text to standard output, -w left the complete formatted text in the file, --check verified that the file equals its formatted text. Every read, parse, format, write or output failure that prevents this ends in a non-zero exit status with a message on standard error. With no failure and a formattable file, dry run and -w exit 0.",
 ["fault_sequences","inputs","configurations"],
 "every sequence of I/O errors (read, open, stat, write, sync, rename, close, standard output/error) at every operation of a dry run, -w or --check, over formattable and unformattable files",
 "no test runs the command-line program, and none makes an I/O operation fail",
 ["src/main.rs","src/formatter.rs","src/lib.rs"],[("Result propagation to process::exit","src/main.rs main(), run()"),("catch_unwind around a worker","src/formatter.rs Formatter::format")],
 [],["exit status","standard output","standard error","final file bytes"]))
L.append(P("C03","Benign I/O granularity and timing never change the outcome",
 "Reads and writes that the operating system completes in arbitrary pieces or interrupts with a signal, slow operations, and clock jumps or stalls never change the exit status, the text delivered or the bytes written compared with undisturbed execution. In particular no byte is lost, duplicated or altered at a piece boundary, including inside a multi-byte character.",
 ["fault_sequences","schedules","inputs"],
 "every split of every read and write into pieces, every placement of interruptions, every latency and clock behaviour, for sources and configuration files from empty to larger than any internal buffer, with multi-byte text",
 "tests read small files from a local disk where every read is complete and uninterrupted",
 ["src/main.rs","src/formatter.rs"],[("whole-file read of source and configuration","src/formatter.rs Formatter::format, Config::from_file"),("write loop for file and stdout","src/main.rs run()")],
 [],["exit status","standard output","final file bytes"]))
L.append(P("C04","Nothing but the named file's content is ever changed",
 "A dry run and --check modify nothing. -w changes only the content of the named file: its permissions are kept, a symbolic link stays a link and the file it names is the one updated, and every other file is untouched. After any run that was not killed, successful or failed, no extra file is left behind.",
 ["fault_sequences","inputs","configurations","histories"],
 "every mode, file kind (regular, symlinked, various permissions, neighbours with similar names) and every sequence of I/O failures",
 "tests never look at the file system after a run, and never run the write or check modes",
 ["src/main.rs"],[("mode dispatch check / write / print","src/main.rs run()")],
 [],["whole file-system tree before and after each command"]))
L.append(P("C05","The formatted text is a function of source and configuration only",
 "For a given source text and configuration, every execution produces byte-identical formatted text, or every execution fails. Thread scheduling, hash seeds, memory layout, clock, process id, environment, working directory, file name, number of processors and whatever else is being formatted in the same process make no difference.",
 ["schedules","inputs","configurations","histories"],
 "all thread interleavings, hash seeds, heap layouts, clocks, environments, paths, and batch companions; any source and configuration",
 "each test formats one file at a time and compares one execution per input; a dependence on an uncontrolled source of nondeterminism shows only sometimes or only elsewhere",
 ["src/formatter.rs","src/utility.rs","src/context.rs","src/doc.rs","src/doc_builder.rs"],[("thread-local source text and comment map","src/utility.rs THREAD_SOURCE_CODE, THREAD_COMMENT_MAP"),("comment map keyed by node identity, looked up but never iterated for output","src/utility.rs collect_comments, get_comment_bucket")],
 [("comment map","hash map keyed by tree-node addresses","src/context.rs CommentMap")],["formatted text returned, printed or written"]))
L.append(P("C06","A batch yields exactly one correct result per file, in input order",
 "Formatting a list of files in one library call returns exactly one result per listed file, in the order listed (a file listed twice gets two results). Each successful result is byte-identical to formatting that file alone. This holds for every interleaving of the workers and any mixture of slow, fast, failing and succeeding files.",
 ["schedules","fault_sequences","inputs"],
 "all interleavings and relative speeds of the per-file workers, any batch of 0 to dozens of files, any subset failing to read or format",
 "every test passes a single-element list, so neither ordering, completeness nor cross-talk between workers is ever exercised",
 ["src/formatter.rs","src/lib.rs"],[("one worker per file, results sent over a channel and collected","src/formatter.rs Formatter::format"),("thread-local formatting state","src/utility.rs")],
 [("result channel","results in flight between workers and the caller","src/formatter.rs Formatter::format")],["Vec returned by the library call"]))
L.append(P("C07","Failures stay contained and every call completes",
 "A file that cannot be read, decoded, parsed or formatted produces an error for that file only: the process survives, the other files' results are unaffected, and later calls in the same process behave as if it had never happened. Every call, including several made concurrently from different threads, returns after finitely many steps; it never deadlocks, hangs or loses a result.",
 ["schedules","fault_sequences","histories","inputs"],
 "any history of library calls, sequential or from concurrent caller threads, with any mixture of failing files and any interleaving",
 "tests make one call per file, each expected to succeed; failure paths and repeated or concurrent calls are not exercised",
 ["src/formatter.rs","src/utility.rs"],[("catch_unwind plus channel send on both paths","src/formatter.rs Formatter::format"),("fresh thread per file, state in thread-locals","src/utility.rs")],
 [],["returned results","process survival","steps to completion"]))
L.append(P("C08","--check gives a truthful verdict about one version of the file",
 "The verdict of --check is right for at least one version the file had while the command ran, even when the file is replaced meanwhile: it exits 0 only if one of them is byte-for-byte equal to its own formatted text under the chosen configuration, and non-zero only if one is not or the command failed. A failure to read or format it is never reported as 'already formatted'. On a quiescent file --check exits 0 exactly when -w would leave every byte unchanged.",
 ["schedules","fault_sequences","inputs","configurations"],
 "every interleaving of --check with atomic replacements of the file, every I/O failure, and files that differ from their formatted text in as little as one byte anywhere",
 "--check has no test at all; a concurrent save can only be placed between its reads by controlling the schedule",
 ["src/main.rs","src/formatter.rs"],[("comparison of original and formatted text","src/main.rs run()")],
 [],["exit status","versions the file held during the run"]))
L.append(P("C09","Interrupted and repeated formatting converges",
 "After any history of -w runs on a file that completed, failed or were killed at any point, one further -w that succeeds leaves exactly the text that a single undisturbed -w would have produced from the original file. From then on --check exits 0 and further -w runs change nothing.",
 ["crash_points","histories","fault_sequences","inputs","configurations"],
 "every history of completed, failing and crashed -w runs (including leftovers of crashed ones) followed by a successful one, over sources and configurations for which formatting succeeds and whose formatted text is a fixed point of formatting (whether it is for every text is C20)",
 "tests format each input once; nothing formats the result again, crashes a run, or reruns one",
 ["src/main.rs","src/formatter.rs","src/doc.rs","src/data_model.rs","src/utility.rs"],[("write branch of run()","src/main.rs"),("layout decisions that must be stable on their own output","src/doc.rs PrettyPrinter, src/data_model.rs, src/utility.rs")],
 [],["file bytes after each command","exit status of --check"]))
L.append(P("C10","Concurrent commands and saves never tear or mix a file",
 "When any number of afmt commands run concurrently on the same or neighbouring files, together with editors that save by replacing the file, every file always holds one complete text: a version someone saved or the formatted text of one such version. Every dry run that exits 0 prints the formatted text of one version its file held while it ran, and a -w run never writes a text derived from a different file.",
 ["schedules","histories","inputs"],
 "every interleaving, at file-operation granularity, of several real afmt processes and replace-style saves on one directory",
 "no test runs two commands at once",
 ["src/main.rs","src/formatter.rs"],[("single whole-file read, single replacement write","src/main.rs run(), src/formatter.rs")],
 [],["file bytes after every file operation","standard output of each process"]))
L.append(P("C11","A named configuration is honoured or refused, never ignored",
 "If a configuration file is named, the run formats with exactly the settings of one version of it that existed during the run (missing settings take the documented defaults, as with no configuration), or it fails with non-zero status and formats and writes nothing. An unreadable, undecodable or malformed configuration never falls back to defaults.",
 ["fault_sequences","schedules","inputs","configurations"],
 "every I/O failure or interruption while the configuration is read, replacement of the configuration during the run, and valid, partial, invalid and unreadable configuration files",
 "tests only use two well-formed, readable, unchanging configuration files",
 ["src/formatter.rs","src/main.rs","src/args.rs"],[("Config::from_file error propagation and serde defaults","src/formatter.rs Config")],
 [],["exit status","formatted text","file bytes"]))
L.append(P("C12","Running out of resources is fail-stop and harmless",
 "When memory, threads, file descriptors, disk space or stack run out at any point, the command ends by itself with a failure status (or completes correctly if it could do without), never reports success for an effect that did not happen, and leaves the file with its previous or its complete formatted text. A library call under thread exhaustion either returns a complete correct result list or fails loudly.",
 ["fault_sequences","inputs"],
 "every allocation, thread creation, descriptor or block allocation as the first to fail, in every mode",
 "tests never run short of a resource",
 ["src/formatter.rs","src/main.rs","src/utility.rs"],[("panic / abort on exhaustion before the write","src/formatter.rs Formatter::format, src/main.rs run()")],
 [],["exit status or signal","file bytes","returned results"]))
L.append(P("C13","A failed install never costs the user a working afmt",
 "The Unix install script exits 0 only if the complete downloaded afmt executable for the machine's platform is in place and executable. If any step (query, download, unpack, move) fails or yields wrong data, or the script is killed at any point, a previously installed working afmt is still in place and intact, or the new one is already completely in place; where none was installed, there is none or the complete, executable new one.",
 ["fault_sequences","crash_points"],
 "every command of the script failing before, in or after its effect, returning truncated or wrong data, and the script being killed or interrupted there, or its text cut off in the pipe, on every kind of home directory and release",
 "the script has no tests",
 ["scripts/install-afmt.sh"],[("set -euo pipefail, unpack in a temporary directory, rename at the end","scripts/install-afmt.sh main()")],
 [],["exit status","content and mode of the installed file"]))
L.append(P("C14","The installer changes nothing of the user's but afmt, and a profile only if told",
 "Whatever fails, and wherever the Unix install script is killed, every file of the user's other than the installed afmt keeps its name, content and mode, in the home directory and in the temporary directory. The shell profile is changed only if the user answers y, afmt is installed and its directory is not on the PATH already; then exactly one setting is added at its end, on a line of its own, after which the shell finds afmt. A successful installation leaves no temporary files behind.",
 ["fault_sequences","crash_points","inputs"],
 "every command failing, cut short or killed, every answer (also none), every kind of profile (absent, empty, read-only, linked, without a final newline), every shell and home directory name",
 "the script has no tests",
 ["scripts/install-afmt.sh"],[("TMP_DIR and its removal","scripts/install-afmt.sh main()"),("prompt and profile update","scripts/install-afmt.sh main(), section 4")],
 [],["home and temporary directory before and after"]))
L.append(P("C15","Every run ends after work in proportion to its text, whatever fails",
 "A command ends after a number of steps, allocations and file operations that is bounded by a small polynomial (about quadratic) of the size of its text plus a constant number of operations per fault it meets. Nesting, long lists, repeated constructs or comments never make the work explode, and no finite sequence of failures, interruptions or partial operations makes it retry, wait or loop without bound.",
 ["inputs","fault_sequences","schedules"],
 "every source text, in particular nested and repetitive ones of growing size, with every finite sequence of faults and delays",
 "tests format small texts once, without faults, and measure nothing",
 ["src/doc.rs","src/formatter.rs","src/main.rs","src/utility.rs"],[("fits() stops at the end of the line","src/doc.rs PrettyPrinter::fits"),("one pass per node, comments looked up by node id","src/utility.rs")],
 [],["number of steps, allocations and operations until exit"]))
NA=[]
def N(*a,reason,**k):
    L.append(P(*a,**k)); NA.append(dict(property=a[0],reason=reason))
pure="A pure function of one source text and configuration: no schedule, clock, I/O, fault or multi-party behaviour can influence whether it holds, so simulation would only be input generation under another name. "
N("C20","Formatting is idempotent for every source",
 "For every source text that formats successfully under a configuration, formatting the result again under the same configuration succeeds and returns it unchanged.",
 ["inputs","configurations"],"every formattable source text and configuration",
 "tests never format their own output, and sample a few hundred inputs at one width",
 ["src/doc.rs","src/data_model.rs","src/utility.rs"],[("layout engine and comment placement","src/doc.rs, src/utility.rs")],
 reason=pure+"Its history-shaped consequence (rerunning -w after crashes and failures converges) is claimed as C09 over that check's workload.")
N("C21","Formatting preserves the program",
 "For every source text that formats successfully, the formatted text parses to the same program: every code token is kept in order, up to keyword case, redundant brackets in queries and empty annotation argument lists.",
 ["inputs","configurations"],"every formattable source text and configuration",
 "tests compare a few hundred inputs with golden outputs at one width and indentation",
 ["src/data_model.rs","src/enum_def.rs","src/accessor.rs"],[("node-by-node rebuild of the syntax tree","src/data_model.rs")],
 reason=pure+"C01 uses an independent token check of the formatted text as a secondary oracle on its workload, but does not decide this for all inputs.")
N("C22","No comment is lost, duplicated or turned into code",
 "For every source text that formats successfully, every comment of it appears exactly once in the formatted text with its words unchanged, and no code ends up inside a comment.",
 ["inputs","configurations"],"every formattable source text, with comments at every legal position",
 "tests cover hand-picked comment positions",
 ["src/utility.rs","src/context.rs"],[("collect_comments / assert_no_missing_comments","src/utility.rs")],
 reason=pure+"Same remark as C21.")
N("C23","Every valid Apex file can be formatted",
 "Every source text that the Apex grammar accepts is formatted without an error.",
 ["inputs"],"every valid Apex source text","tests sample a few hundred texts",
 ["src/data_model.rs","src/enum_def.rs"],[("exhaustive matching on node kinds","src/enum_def.rs")],
 reason=pure)
N("C24","Layout respects the configured width and indentation",
 "Lines longer than the configured width occur only where no line break is possible, and every indentation step is the configured number of spaces.",
 ["inputs","configurations"],"every formattable source text and configuration","tests use one width and one indentation",
 ["src/doc.rs","src/doc_builder.rs"],[("fits() lookahead","src/doc.rs PrettyPrinter::fits")],
 reason=pure)
open('properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in L))
json.dump(NA,open('na.json','w'),indent=1)
for x in L: assert len(x['title'])<=80,(x['id'],len(x['title'])); assert x['statement'].count('. ')<=2,(x['id'])
