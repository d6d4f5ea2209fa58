import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
J="jom/jom.go";AP="jom/json_map/absolute_paths.go.go";PP="jom/json_map/json_path_parse.go";JS="code/js/js.go";GO="code/go/go.go";CODE="code/code.go";RUN="code/run.go";CLI="json-dom.go";ERR="globals/error.go";INT="code/interruptible.go"

p("C01","A JSON path selects exactly the values it describes",
"For every document and every well-formed JSON path, a get returns exactly the values that the path describes, its steps (property, index, index list, slice with inclusive start and exclusive end, wildcard, first descent, recursive lookup, filter) applied from left to right. A list of values (an array, or what a wildcard, slice, filter or recursive lookup selects) is followed as an array: a property selects that member of each element which has it, an index one element, and a path that ends in a list gives its elements. Nothing else is returned and nothing is missing, and a step that the value it reaches cannot satisfy (missing key, index or slice outside the array, descent into a scalar) is an error instead of a result.",
["inputs"],"All documents (any nesting, odd keys, unicode, array roots) and all well-formed paths, of any length and mixture of steps.",
"The tests get 3 hand-written paths and one document's list of expected values; the product of step kinds, shapes and depths is open ended.",
[J,AP,PP],[("path walk with one goroutine per branch","pathFinder in "+J),("collection of results","GetAbsolutePaths in "+J),("compilation of steps","AddToAll in "+AP)],["JsonPathSelector","MustGet"])

p("C02","Every selected value comes with its own address",
"Each node that a query returns carries its own absolute path from the document's root (the keys and indices of a path made only of these, and otherwise the path's steps with the index that tells the node from the others that they select); resolving it again on the unchanged document gives exactly that node's value and no other. The addresses of two nodes of one query are different whenever they are different places.",
["inputs"],"All documents and all well-formed paths; every node of every result.",
"The tests compare addresses of one fixture for a handful of paths; whether an address and its value belong together depends on concurrent branches sharing or copying their prefix.",
[J,AP],[("address carried along each branch","pathFinder in "+J),("resolution of addresses","GetAbsolutePaths in "+J)],["JsonPathSelector","GetAbsolutePaths"])

p("C03","Queries do not change the document and always give the same sequence",
"A query never changes the document, and repeating it, on the same document or on an equal one that was built in another order, gives the same values in the same order every time. Elements of arrays come in index order and members of objects in the order of their keys, whatever order the concurrently explored branches finish in.",
["inputs","schedules"],"All documents and paths, all interleavings of the branches that the evaluation starts, and all iteration orders of Go's maps.",
"The tests run each query once and sort or compare sets; map iteration order and goroutine interleaving differ from run to run.",
[J],[("ordering of results","GetAbsolutePaths in "+J),("sorted keys","sortedKeys in "+J)],["JsonPathSelector"])

p("C04","Sets and deletes change exactly the selected locations",
"Setting a value through a path puts that value at every location that the path selects (creating the last key where the parent is an object) and changes nothing else in the document; deleting (setting nothing) removes exactly the selected locations, closing gaps in arrays and leaving objects without the key. This holds for any sequence of sets and deletes, each working on the result of the ones before it, and getting the path after a set gives the value that was set.",
["inputs","histories"],"All documents, all settable paths (single, wildcard, slice, first-descent, recursive, filter), all JSON values, and all histories of sets and deletes.",
"The tests set and delete a few fixed locations once; overlapping locations, removed siblings that shift indices and sequences are not sampled.",
[J],[("set and delete by location","SetAbsolutePaths in "+J),("path setter","JsonPathSetter in "+J)],["JsonPathSetter","MustSet","MustDelete"])

p("C05","Locations that were set together stay independent of each other",
"When one container value is set at several locations (also if it was read from the same document), or at one location while the caller keeps the value, each location gets the value as it was given, and a later change at one of those locations or to the caller's value shows up nowhere else.",
["inputs","histories"],"All container values, all paths with several locations, all later changes at one of them.",
"The tests only look at a document right after a set, where shared and copied containers look the same.",
[J],[("deep copy of set values","SetAbsolutePaths and deepCopy in "+J)],["JsonPathSetter","MustSet"])

p("C06","Paths that are malformed or cannot be satisfied are refused cleanly",
"A text that is not a well-formed JSON path, or a path with a step that cannot be satisfied by the document, is refused with an error by gets, sets and deletes, and makes the panicking variants panic: no values are returned together with the error. An unsuccessful get leaves the document untouched, and so does a set or delete whose path is malformed.",
["inputs"],"All strings that the path grammar does not generate; all paths in which some step has no matching value, on all documents.",
"The tests refuse a handful of texts; malformed texts are open ended and an error found by one branch can be lost among the others.",
[PP,J],[("path tokenizer and its states","ParseJsonPath, handler, findToken in "+PP),("propagation of errors between branches","pathFinder in "+J)],["JsonPathSelector","JsonPathSetter","ParseJsonPath","MustGet","MustSet","MustDelete"])

p("C07","Parsing a path gives exactly the steps that were written",
"Parsing the text of a path yields one entry per step, in order, with the kind, name, index, slice bounds or filter expression that was written, whatever the length of the text, the spaces allowed within it or the quotes and brackets within filters; several indices in one pair of brackets yield one path for each combination, in order, and a step of several dots yields that many descents.",
["inputs"],"All well-formed path texts: any number of steps, long names, several filters, repeated dots, leading zeros, unicode.",
"The parser tests enumerate a few dozen paths with short steps; token boundaries move with the length and content of neighbouring steps.",
[PP,AP],[("path tokenizer","state table, findToken in "+PP),("step compilation","AddToAll in "+AP)],["ParseJsonPath"])

p("C08","Pushing and popping behave like list operations and lose nothing",
"Pushing a value at an index (or at several, or at the end when none is given) inserts one copy of it there and keeps every other element in its order; popping removes exactly the elements at the given indices and returns them, and neither changes the indices it is given. Over any history of pushes and pops every element that went in is either in the array or was returned by exactly one pop.",
["inputs","histories"],"All arrays (empty ones included), all lists of indices (unsorted, duplicated, negative for pops, past the end), all histories.",
"The tests push and pop 5 fixed index lists once each; conservation over histories and index lists that shift each other is not sampled.",
[J],[("push","MustPush in "+J),("pop","MustPop in "+J)],["MustPush","MustPop"])

p("C09","Every script runs exactly once, in order, and disappears",
"Evaluating a document runs every script in it exactly once: the scripts of one object in the order of their keys, an object's own scripts before those of the objects nested in it, also within (nested) arrays and in documents whose root is an array. The scripts of an object are those that it has when its turn comes, run with the text that they have then, so a script that one further out put into or removed from a deeper level is respectively run and not run. Afterwards none of them is left in the document, everything else stays as the scripts left it, and evaluating again does nothing (unless a script put new scripts into its own object, which are left as text).",
["inputs","programs"],"All documents with any number of scripts anywhere in them, JavaScript or Go callbacks, including scripts that add and remove nested objects.",
"The examples cover ten fixed documents; the order depends on Go's map iteration, and scripts reshape the tree that is being walked.",
[J,CODE],[("search for scripts","FindScriptFields and findArrayScriptFields in "+J),("evaluation of levels","Run and runArray in "+J)],["Eval","Run"])

p("C10","A script sees its own scope and cannot affect other scripts",
"A script is given the object that holds it as its scope, with the correct scope path, and nothing of the rest of the document. What it leaks into global variables, redefines in builtins or replaces in the interface object cannot be seen by any other script, and whatever it does to its scope changes only that object in the document.",
["programs","inputs"],"All documents and all scripts, including hostile ones that rewrite builtins and the interface object.",
"The tests' scripts do not try to interfere with each other; isolation is a statement about every script.",
[JS,J],[("fresh interpreter per script","RunScript in "+JS),("scope paths","Run in "+J)],["Eval","json.scopePath","json.trail"])

p("C11","Documents survive the trip into and out of a script unchanged",
"Within a script the scope has exactly the document's values and types (numbers, strings, booleans, null, arrays, nested objects); what the script does not change comes back as it was, and what it changes comes back as JSON would represent it. Assignments, deletions, array methods and shared or copied references have the effect that JavaScript gives them.",
["programs","inputs"],"All documents and all sequences of changes that a script can make to its scope.",
"The examples only make a few assignments; the conversion has to keep every value of every shape in both directions.",
[JS],[("conversion to the interpreter","jsonToJs and createJom in "+JS),("conversion back","traverseObject, toGo and deJomIfy in "+JS)],["json.trail","Eval"])

p("C12","Path selections within scripts agree with those outside",
"A selection made by a script through a JSON path gives the values (and a set the effects) that the same path has on the script's scope through the native interface, including changes that the script made before it (a selection of exactly one array gives its elements); a path that is refused outside throws an exception that the script can catch. Changes made through a selection and changes made directly are both visible in the script and in the resulting document.",
["programs","histories"],"All documents, all paths, all interleavings of selections, sets through selections and direct changes in one script.",
"One example document uses a few selections; histories mixing both ways of changing the scope are not sampled.",
[JS,J],[("selection objects of scripts","jsonPathSelector in "+JS)],["json.jsonPathSelector","getValues","setValues"])

p("C13","Filters keep exactly the elements for which the expression is true",
"A filter step keeps exactly the array elements or object members for which its JavaScript expression is truthy, where the current node stands for the element and paths within the expression are evaluated on the whole document; string literals that contain the special characters are left alone. An expression that throws is an error of the query, and gets, sets and deletes through a filter agree on what it selects.",
["inputs","programs"],"All element types and all filter expressions, including nested paths, quotes, brackets and special characters.",
"The tests use a few numeric comparisons; expressions and elements are open ended.",
[J,PP],[("filter evaluation","filterRunner in "+J),("reading of filter expressions","filter state in "+PP)],["JsonPathSelector","JsonPathSetter"])

p("C14","Whatever runs too long is stopped near the limit, and only that",
"A script, Go callback or filter that does not end is stopped and reported, with its scope, shortly after the configured time limit, whatever construct it loops or recurses in and whether or not it tries to catch the interruption. Work that ends within the limit is never interrupted, the limit counts for each script on its own, and a stopped one does not disturb whatever runs next.",
["programs","schedules"],"All non-terminating scripts, callbacks and filters made of interruptible statements, and all documents in which terminating ones run next to them.",
"One example has a single endless loop; the way in which a loop is written and where timers outlive their script are not sampled.",
[JS,GO,J,INT],[("timer of scripts","RunScript in "+JS),("timer of callbacks","RunCallback in "+GO),("timer of filters","filterRunner in "+J),("loops without statements","RunInterruptible in "+INT)],["Eval","JsonPathSelector"])

p("C15","Independent documents can be used concurrently",
"Evaluations, queries, sets and clones of different documents that run at the same time give the results they give alone, without data races; the same holds for queries of one document that nothing changes meanwhile. Within a single call the work that is done concurrently is free of data races too.",
["schedules","inputs"],"All sets of concurrent calls on independent documents and all their interleavings.",
"The tests are sequential and are not run under the race detector.",
[J,JS,CODE],[("concurrent path walk","pathFinder in "+J),("global state","package variables in "+JS+" and "+CODE)],["Eval","JsonPathSelector","JsonPathSetter","Clone"])

p("C16","Bad input gives an error, never a crash or a result",
"Evaluating text that is neither JSON nor Hjson, or a document whose script does not parse, throws, is of an unsupported language or destroys what it was given, ends with an error and no output; a panic never escapes and a failing Go callback is reported as an error. The error names the failing script and its scope path (only the script, if its language is not supported), an exception that a script catches itself is no error, and a failed evaluation does not affect any later one. What a failing script itself did to its scope is not in a document evaluated in place afterwards.",
["inputs","programs","fault_sequences"],"All byte strings as documents, all scripts that fail, in all places.",
"The tests have two failing documents; malformed texts and ways to fail are open ended.",
[J,JS,GO,ERR],[("recovery of panics","Eval in "+J),("errors of scripts","RunScript in "+JS),("errors of callbacks","RunCallback in "+GO)],["Eval","Run"])

p("C17","Nothing keeps running after a call has returned",
"After an evaluation, query or set has returned (successfully, with an error, or by being stopped), the goroutines and timers that it started end: any number of calls leaves the process with as many goroutines as before.",
["histories","schedules"],"All sequences of calls of every outcome, except Go callbacks that themselves never return.",
"The tests never look at what is left behind; a leak only shows as growth over many calls.",
[J,JS,GO],[("timers and their channels","RunScript in "+JS+", RunCallback in "+GO+", filterRunner in "+J)],["runtime.NumGoroutine"])

p("C18","Documents survive reading and writing",
"Reading a JSON or Hjson text gives the document that the text denotes, with objects and arrays as roots, and writing a document and reading it again gives an equal document, as does the human readable form. Reading another text into an object that was used before gives the same as reading it into a new one.",
["inputs","histories"],"All documents (any strings, keys, numbers, nesting) in all JSON and Hjson notations, and all histories of texts read into one object.",
"The tests read a few fixtures; strings, escapes, numbers and notations are open ended.",
[J],[("reading","Unmarshal in "+J),("writing","Marshal and String in "+J)],["Unmarshal","Marshal","String","IsArray"])

p("C19","Finding, stripping and running scripts agree over any history",
"Finding scripts reports whether there are any and changes nothing; stripping removes exactly the scripts and nothing else; running after stripping runs nothing. In any sequence of finding, stripping, running, marking, editing and writing, each step does what it does on a freshly built equal document.",
["histories","inputs"],"All documents with scripts and all histories of the operations.",
"The tests call each operation once on a new document; state that is kept between the calls is not exercised.",
[J],[("kept positions of scripts","FindScriptFields, Strip and Run in "+J)],["FindScriptFields","Strip","Run","Marshal"],[("traversal","the scripts found at the current level","Traversal in "+J)])

p("C20","A clone is equal to its original and independent of it",
"A clone has the same content, kind of root and scope path as its original (or none of the content, when cleared), and no later operation on either of them can be observed through the other.",
["inputs","histories"],"All documents and all histories of edits, runs and reads on both sides after the cloning.",
"No test edits a clone and looks at the original below the first level.",
[J],[("cloning","Clone and deepCopy in "+J)],["Clone"])

p("C21","The command line program does what the library does",
"The command line program evaluates each given input or file and prints the result that the library gives for it, in the order given and nothing else; marking up puts the scripts at the given paths in the order given, and stripping and evaluating compose as they do in the library. Erroneous calls and inputs end with a message and a non-zero exit status, valid ones with status zero.",
["inputs","configurations"],"All combinations of subcommands, flags, inputs and files.",
"No test runs the program.",
[CLI,ERR],[("subcommands and flags","main in "+CLI),("handling of errors","CliError.Handle in "+ERR)],["stdout, stderr and exit status of the program"])

p("C22","A string is a script exactly if its first line is a shebang",
"A string that is an object member's value is a script exactly if its first line is the shebang of a known language, and reported as unsupported if it is a shebang of another two-letter language; every other string is data, which is kept as it is. Finding, stripping, running and evaluating all classify in the same way, and only what follows the first line is run.",
["inputs"],"All strings as members' values, in all places.",
"The examples have one spelling of the shebang and one unsupported language.",
[CODE,J],[("classification","NewFrom and ShebangScriptLang in "+CODE),("search for scripts","FindScriptFields in "+J)],["NewFrom","FindScriptFields","Strip","Eval"])

p("C23","Console output of scripts is complete, attributed and in order",
"Everything that scripts print through the console or the external print function is written exactly once, in the order of the calls, to the right stream, attributed to the scope and line of the call and with every argument; output from before a script fails is not lost, and nothing else is written to those streams.",
["programs","histories"],"All scripts, all arguments (cyclic objects included), all scopes.",
"No test looks at what is printed.",
[JS],[("print functions","composePrint and createJom in "+JS)],["stdout","stderr"])

p("C24","Marking up puts a script where the path says, and it runs there",
"Marking up a document with a script at a path sets every location that the path selects to a script of that language, and changes nothing else; the script then runs with the object that holds it as its scope. A language that is not supported or a path that cannot be set is an error.",
["inputs"],"All documents, all paths, all script texts, all language names.",
"One doc example marks one location.",
[J,CODE,RUN],[("marking","MarkupCode in "+J),("composition of script texts","Code.String in "+CODE),("known languages","CheckIfSupported in "+RUN)],["MarkupCode"])

p("C25","Evaluation is a function of the document",
"Evaluating equal documents gives byte for byte the same result, the same console output, and the same success or failure with the same message, whatever the order of the keys in the source text, the iteration order of Go's maps and the interleaving of concurrent branches. This includes everything that scripts and filters can observe, such as the order in which they see the keys of objects and the results of selections.",
["inputs","programs","schedules"],"All documents with scripts that use neither clock nor random numbers, all permutations of their source's keys, and all runs.",
"The tests evaluate each document once; nondeterminism shows only in some runs.",
[J,JS],[("sorted keys","sortedKeys in "+J),("conversion in key order","jsonToJs in "+JS)],["Eval","Run"])

p("C26","A selection in a script describes its path and stays usable",
"A selection object that a script makes tells exactly the steps of its path (kind and key of each, one list for each combination of listed indices) and can be used any number of times, each use selecting in the scope as it is at that moment. The values it gives and takes are copies, so that changing them, or what the selection tells, shows up neither in the scope nor in what the selection gives later, and a call with the wrong arguments throws without an effect.",
["inputs","programs","histories"],"All paths, all scopes, and all sequences of making and using selections and changing what is around them.",
"One example reads the values of a selection once; nothing reads its steps or uses it again after a change.",
[JS],[("selection object","jsonPathSelector and setupKeyObject in "+JS)],["_absolutePaths","getValues","setValues"])

p("C27","Paths built from their steps work as written ones do",
"Getting and setting through absolute paths that were put together from their steps, by hand or with AddToAll, does what the same path does as a text, also with names that no text can express; several paths are followed in their order, and their results are joined in that order. Adding steps to paths gives every combination of the paths and the added steps in order, is refused if asked to check and a path cannot be followed, and using paths or adding to them changes neither other paths that were made from the same steps nor, for gets, the document.",
["inputs"],"All documents and all lists of paths of any steps and keys.",
"The tests build three paths of plain keys and one slice.",
[AP,J],[("combination of paths and steps","AddToAll in "+AP),("path walk","GetAbsolutePaths and SetAbsolutePaths in "+J)],["AddToAll","GetAbsolutePaths","SetAbsolutePaths"])

p("C28","Every way of evaluating a document gives the same",
"Evaluating a text in one call (verbosely or not), reading, running and writing it step by step, and running an equal document that came from another notation, from its own writing, from a map, a clone or a used object, or that was put together by sets and mark-ups, give the same result, run the same scripts in the same scopes and order, and fail with the same message. The same document within another one or within an array is evaluated to the same, its scope paths apart, and evaluating a result again gives it back unchanged.",
["inputs","programs","histories"],"All documents with scripts, failing ones included, and all ways of obtaining and running them.",
"Each test evaluates its document in one way.",
[J,CODE],[("evaluation in one call","Eval in "+J),("evaluation step by step","Unmarshal, Run and Marshal in "+J),("nested scopes","Run and runArray in "+J)],["Eval","Unmarshal","Run","Marshal","Clone","MarkupCode"])

p("C29","Native numbers of Go count as the numbers they stand for",
"A document in which Go code has put numbers of any of Go's types behaves like the document in which they are written as JSON numbers: queries, filters, sets, pushes, pops, clones, scripts and writing see and give the same values. What is only moved or copied by a query, set, push, pop, clone or an evaluation without scripts keeps its type.",
["inputs"],"All documents with integers and floats of Go's types anywhere, all paths and values.",
"The tests' documents come from texts; the few native numbers they set are not read back by anything else.",
[J,JS],[("copying of values","deepCopy in "+J),("conversion for scripts and filters","filterRunner in "+J+" and jsonToJs in "+JS)],["JsonPathSelector","JsonPathSetter","MustPush","MustPop","Clone","Marshal","String","Run"])

p("C30","A Go callback works on its scope as on a document of its own",
"Every call that a Go callback makes through the interface it is given (queries, sets, pushes, pops, deletes, clones, searches for scripts, stripping, replacing its content, evaluating other documents) gives the result and leaves the content that it does on a document which consists of just that scope, the callbacks in it included. What it leaves is in the document afterwards, in that scope and nowhere else, and is what later callbacks and nested scopes see. The callbacks that an object has when its turn comes each run exactly once, whatever the ones before them do.",
["inputs","programs","histories"],"All documents, all placements of callbacks, and all sequences of calls.",
"The tests' callbacks make a few gets and sets each.",
[J,"code/go/go.go"],[("callbacks","RunCallback in code/go/go.go"),("order of scripts and scopes","Run in "+J),("interface","JsonMapInt in jom/json_map/json_map.go")],["Run","func(json_map.JsonMapInt)"])

p("C31","Scripts are handed to their language's runner",
"Each script of a document is handed exactly once, when its turn comes, to the runner that was last registered for its language (those that the user registers included), with its text after the first line (or its callback), the path of the object that holds it, and that object's content as the scripts before it have left it. What the runner returns as the scope, in whatever way it was made, is the object from then on, without the script, and everything nested in it is evaluated with the runners, too. An error or panic of a runner ends the evaluation as a failure with that very message, and nothing is handed to a runner after it.",
["inputs","programs","histories"],"All documents with scripts and callbacks of both languages, and all runners.",
"The tests use the two runners that come with the library only.",
[RUN,CODE,J],[("choice of the runner","Run and RegisterLang in "+RUN),("scripts' texts","NewFrom in "+CODE),("use of what a runner returns","Run in "+J)],["RegisterLang","Run","Eval"])

p("C32","An error says which kind of failure it was, and each reason once",
"Errors of paths, scripts, languages and limits begin with the code of their kind (an evaluation in one call puts words of its own in front): that of JSON path errors for a path that cannot be read or followed, that of script errors for a script that throws, does not parse or destroys what it is given, and their own for what was stopped (with the time it had run) and for unsupported languages. When several of the paths of a query cannot be followed, its error gives the reason that each has on its own, once and in their order, under one code. The panicking variants, callbacks that let an error through and exceptions of selections in scripts give the very text that the same operation gives elsewhere.",
["inputs","programs"],"All failing paths, scripts, callbacks and languages on all documents.",
"The tests compare a handful of messages; which failures meet and in which order concurrent branches report them is open ended.",
["globals/error.go",J,JS,CODE],[("codes and joined reasons","FillError and FillFromErrors in globals/error.go"),("joining the errors of paths","GetAbsolutePaths and JsonPathSelector in "+J),("errors of scripts","RunScript in "+JS)],["Eval","JsonPathSelector","MarkupCode"])

import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
with open('/verif/properties.jsonl','w') as f:
    for q in P:
        jsonschema.validate(q,sch)
        assert q["statement"].count(". ")<=2,q["id"]
        f.write(json.dumps(q,ensure_ascii=False)+"\n")
print(len(P))
